// generated by tools/genops.py from the public headers; do not edit
#include <stddef.h>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/fwd.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

#include <new>
#include <functional>
#include "ops.hpp"
#define R(T, ...) new (r) CT_##T(__VA_ARGS__)
typedef float CT_FLOAT;
typedef int32_t CT_INT;
typedef unsigned CT_UINT;
typedef bool CT_BOOL;
typedef size_t CT_U64;
typedef zcm::vec2 CT_VEC2;
typedef zcm::vec3 CT_VEC3;
typedef zcm::vec4 CT_VEC4;
typedef zcm::ivec2 CT_IVEC2;
typedef zcm::ivec3 CT_IVEC3;
typedef zcm::ivec4 CT_IVEC4;
typedef zcm::bvec2 CT_BVEC2;
typedef zcm::bvec3 CT_BVEC3;
typedef zcm::bvec4 CT_BVEC4;
typedef zcm::mat2 CT_MAT2;
typedef zcm::mat3 CT_MAT3;
typedef zcm::mat4 CT_MAT4;
typedef zcm::quat CT_QUAT;
namespace {
void o0(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0])[2u] = *(const bool*)a[1]; }
void o1(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0])[2u] ^= *(const bool*)a[1]; }
void o2(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::bvec4*)a[0]))[2] = *(const bool*)a[1]; }
void o3(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0]).w = *(const bool*)a[1]; }
void o4(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0])[3u] = *(const bool*)a[1]; }
void o5(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0])[3u] ^= *(const bool*)a[1]; }
void o6(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::bvec4*)a[0]))[3] = *(const bool*)a[1]; }
void o7(void* const* a, void* r) { (void)a; (void)r; const bool* p = zcm::value_ptr(*(const zcm::bvec4*)a[0]); for(int i=0;i<4;i++) ((bool*)r)[i]=p[i]; }
void o8(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0]).x = *(const float*)a[1]; }
void o9(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0])[0u] = *(const float*)a[1]; }
void o10(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0])[0u] += *(const float*)a[1]; }
void o11(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::quat*)a[0]))[0] = *(const float*)a[1]; }
void o12(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::quat*)a[0]))[0] *= *(const float*)a[1]; }
void o13(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0]).y = *(const float*)a[1]; }
void o14(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0])[1u] = *(const float*)a[1]; }
void o15(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0])[1u] += *(const float*)a[1]; }
void o16(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::quat*)a[0]))[1] = *(const float*)a[1]; }
void o17(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::quat*)a[0]))[1] *= *(const float*)a[1]; }
void o18(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0]).z = *(const float*)a[1]; }
void o19(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0])[2u] = *(const float*)a[1]; }
void o20(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0])[2u] += *(const float*)a[1]; }
void o21(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::quat*)a[0]))[2] = *(const float*)a[1]; }
void o22(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::quat*)a[0]))[2] *= *(const float*)a[1]; }
void o23(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0]).w = *(const float*)a[1]; }
void o24(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0])[3u] = *(const float*)a[1]; }
void o25(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0])[3u] += *(const float*)a[1]; }
void o26(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::quat*)a[0]))[3] = *(const float*)a[1]; }
void o27(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::quat*)a[0]))[3] *= *(const float*)a[1]; }
void o28(void* const* a, void* r) { (void)a; (void)r; const float* p = zcm::value_ptr(*(const zcm::quat*)a[0]); for(int i=0;i<4;i++) ((float*)r)[i]=p[i]; }
void o29(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[0u] = *(const zcm::vec2*)a[1]; }
void o30(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[0u] += *(const zcm::vec2*)a[1]; }
void o31(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[0u] -= *(const zcm::vec2*)a[1]; }
void o32(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[0u] *= *(const zcm::vec2*)a[1]; }
void o33(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[0u] *= *(const float*)a[1]; }
void o34(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[0u][0u] = *(const float*)a[1]; }
void o35(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[0u].x += *(const float*)a[1]; }
void o36(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat2*)a[0]))[0] = *(const float*)a[1]; }
void o37(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[0u][1u] = *(const float*)a[1]; }
void o38(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[0u].y += *(const float*)a[1]; }
void o39(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat2*)a[0]))[1] = *(const float*)a[1]; }
void o40(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[1u] = *(const zcm::vec2*)a[1]; }
void o41(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[1u] += *(const zcm::vec2*)a[1]; }
void o42(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[1u] -= *(const zcm::vec2*)a[1]; }
void o43(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[1u] *= *(const zcm::vec2*)a[1]; }
void o44(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[1u] *= *(const float*)a[1]; }
void o45(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[1u][0u] = *(const float*)a[1]; }
void o46(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[1u].x += *(const float*)a[1]; }
void o47(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat2*)a[0]))[2] = *(const float*)a[1]; }
void o48(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[1u][1u] = *(const float*)a[1]; }
void o49(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[1u].y += *(const float*)a[1]; }
void o50(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat2*)a[0]))[3] = *(const float*)a[1]; }
void o51(void* const* a, void* r) { (void)a; (void)r; const float* p = zcm::value_ptr(*(const zcm::mat2*)a[0]); for(int i=0;i<4;i++) ((float*)r)[i]=p[i]; }
void o52(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[0u] = *(const zcm::vec3*)a[1]; }
void o53(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[0u] += *(const zcm::vec3*)a[1]; }
void o54(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[0u] -= *(const zcm::vec3*)a[1]; }
void o55(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[0u] *= *(const zcm::vec3*)a[1]; }
void o56(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[0u] *= *(const float*)a[1]; }
void o57(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[0u][0u] = *(const float*)a[1]; }
void o58(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[0u].x += *(const float*)a[1]; }
void o59(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat3*)a[0]))[0] = *(const float*)a[1]; }
void o60(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[0u][1u] = *(const float*)a[1]; }
void o61(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[0u].y += *(const float*)a[1]; }
void o62(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat3*)a[0]))[1] = *(const float*)a[1]; }
void o63(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[0u][2u] = *(const float*)a[1]; }
void o64(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[0u].z += *(const float*)a[1]; }
void o65(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat3*)a[0]))[2] = *(const float*)a[1]; }
void o66(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[1u] = *(const zcm::vec3*)a[1]; }
void o67(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[1u] += *(const zcm::vec3*)a[1]; }
void o68(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[1u] -= *(const zcm::vec3*)a[1]; }
void o69(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[1u] *= *(const zcm::vec3*)a[1]; }
void o70(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[1u] *= *(const float*)a[1]; }
void o71(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[1u][0u] = *(const float*)a[1]; }
void o72(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[1u].x += *(const float*)a[1]; }
void o73(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat3*)a[0]))[3] = *(const float*)a[1]; }
void o74(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[1u][1u] = *(const float*)a[1]; }
void o75(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[1u].y += *(const float*)a[1]; }
void o76(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat3*)a[0]))[4] = *(const float*)a[1]; }
void o77(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[1u][2u] = *(const float*)a[1]; }
void o78(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[1u].z += *(const float*)a[1]; }
void o79(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat3*)a[0]))[5] = *(const float*)a[1]; }
void o80(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[2u] = *(const zcm::vec3*)a[1]; }
void o81(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[2u] += *(const zcm::vec3*)a[1]; }
void o82(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[2u] -= *(const zcm::vec3*)a[1]; }
void o83(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[2u] *= *(const zcm::vec3*)a[1]; }
void o84(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[2u] *= *(const float*)a[1]; }
void o85(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[2u][0u] = *(const float*)a[1]; }
void o86(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[2u].x += *(const float*)a[1]; }
void o87(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat3*)a[0]))[6] = *(const float*)a[1]; }
void o88(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[2u][1u] = *(const float*)a[1]; }
void o89(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[2u].y += *(const float*)a[1]; }
void o90(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat3*)a[0]))[7] = *(const float*)a[1]; }
void o91(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[2u][2u] = *(const float*)a[1]; }
void o92(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[2u].z += *(const float*)a[1]; }
void o93(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat3*)a[0]))[8] = *(const float*)a[1]; }
void o94(void* const* a, void* r) { (void)a; (void)r; const float* p = zcm::value_ptr(*(const zcm::mat3*)a[0]); for(int i=0;i<9;i++) ((float*)r)[i]=p[i]; }
void o95(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[0u] = *(const zcm::vec4*)a[1]; }
void o96(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[0u] += *(const zcm::vec4*)a[1]; }
void o97(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[0u] -= *(const zcm::vec4*)a[1]; }
void o98(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[0u] *= *(const zcm::vec4*)a[1]; }
void o99(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[0u] *= *(const float*)a[1]; }
void o100(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[0u][0u] = *(const float*)a[1]; }
void o101(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[0u].x += *(const float*)a[1]; }
void o102(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[0] = *(const float*)a[1]; }
void o103(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[0u][1u] = *(const float*)a[1]; }
void o104(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[0u].y += *(const float*)a[1]; }
void o105(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[1] = *(const float*)a[1]; }
void o106(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[0u][2u] = *(const float*)a[1]; }
void o107(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[0u].z += *(const float*)a[1]; }
void o108(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[2] = *(const float*)a[1]; }
void o109(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[0u][3u] = *(const float*)a[1]; }
void o110(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[0u].w += *(const float*)a[1]; }
void o111(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[3] = *(const float*)a[1]; }
void o112(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[1u] = *(const zcm::vec4*)a[1]; }
void o113(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[1u] += *(const zcm::vec4*)a[1]; }
void o114(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[1u] -= *(const zcm::vec4*)a[1]; }
void o115(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[1u] *= *(const zcm::vec4*)a[1]; }
void o116(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[1u] *= *(const float*)a[1]; }
void o117(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[1u][0u] = *(const float*)a[1]; }
void o118(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[1u].x += *(const float*)a[1]; }
void o119(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[4] = *(const float*)a[1]; }
void o120(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[1u][1u] = *(const float*)a[1]; }
void o121(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[1u].y += *(const float*)a[1]; }
void o122(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[5] = *(const float*)a[1]; }
void o123(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[1u][2u] = *(const float*)a[1]; }
void o124(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[1u].z += *(const float*)a[1]; }
void o125(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[6] = *(const float*)a[1]; }
void o126(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[1u][3u] = *(const float*)a[1]; }
void o127(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[1u].w += *(const float*)a[1]; }
void o128(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[7] = *(const float*)a[1]; }
void o129(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[2u] = *(const zcm::vec4*)a[1]; }
void o130(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[2u] += *(const zcm::vec4*)a[1]; }
void o131(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[2u] -= *(const zcm::vec4*)a[1]; }
void o132(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[2u] *= *(const zcm::vec4*)a[1]; }
void o133(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[2u] *= *(const float*)a[1]; }
void o134(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[2u][0u] = *(const float*)a[1]; }
void o135(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[2u].x += *(const float*)a[1]; }
void o136(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[8] = *(const float*)a[1]; }
void o137(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[2u][1u] = *(const float*)a[1]; }
void o138(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[2u].y += *(const float*)a[1]; }
void o139(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[9] = *(const float*)a[1]; }
void o140(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[2u][2u] = *(const float*)a[1]; }
void o141(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[2u].z += *(const float*)a[1]; }
void o142(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[10] = *(const float*)a[1]; }
void o143(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[2u][3u] = *(const float*)a[1]; }
void o144(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[2u].w += *(const float*)a[1]; }
void o145(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[11] = *(const float*)a[1]; }
void o146(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[3u] = *(const zcm::vec4*)a[1]; }
void o147(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[3u] += *(const zcm::vec4*)a[1]; }
void o148(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[3u] -= *(const zcm::vec4*)a[1]; }
void o149(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[3u] *= *(const zcm::vec4*)a[1]; }
void o150(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[3u] *= *(const float*)a[1]; }
void o151(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[3u][0u] = *(const float*)a[1]; }
void o152(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[3u].x += *(const float*)a[1]; }
void o153(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[12] = *(const float*)a[1]; }
void o154(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[3u][1u] = *(const float*)a[1]; }
void o155(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[3u].y += *(const float*)a[1]; }
void o156(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[13] = *(const float*)a[1]; }
void o157(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[3u][2u] = *(const float*)a[1]; }
void o158(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[3u].z += *(const float*)a[1]; }
void o159(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[14] = *(const float*)a[1]; }
void o160(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[3u][3u] = *(const float*)a[1]; }
void o161(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[3u].w += *(const float*)a[1]; }
void o162(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::mat4*)a[0]))[15] = *(const float*)a[1]; }
void o163(void* const* a, void* r) { (void)a; (void)r; const float* p = zcm::value_ptr(*(const zcm::mat4*)a[0]); for(int i=0;i<16;i++) ((float*)r)[i]=p[i]; }
void o164(void* const* a, void* r) { (void)a; (void)r; R(U64, std::hash<zcm::vec2>()(*(const zcm::vec2*)a[0])); }
void o165(void* const* a, void* r) { (void)a; (void)r; R(U64, std::hash<zcm::vec3>()(*(const zcm::vec3*)a[0])); }
void o166(void* const* a, void* r) { (void)a; (void)r; R(U64, std::hash<zcm::vec4>()(*(const zcm::vec4*)a[0])); }
void o167(void* const* a, void* r) { (void)a; (void)r; R(U64, std::hash<zcm::ivec2>()(*(const zcm::ivec2*)a[0])); }
void o168(void* const* a, void* r) { (void)a; (void)r; R(U64, std::hash<zcm::ivec3>()(*(const zcm::ivec3*)a[0])); }
void o169(void* const* a, void* r) { (void)a; (void)r; R(U64, std::hash<zcm::ivec4>()(*(const zcm::ivec4*)a[0])); }
void o170(void* const* a, void* r) { (void)a; (void)r; R(U64, std::hash<zcm::bvec2>()(*(const zcm::bvec2*)a[0])); }
void o171(void* const* a, void* r) { (void)a; (void)r; R(U64, std::hash<zcm::bvec3>()(*(const zcm::bvec3*)a[0])); }
void o172(void* const* a, void* r) { (void)a; (void)r; R(U64, std::hash<zcm::bvec4>()(*(const zcm::bvec4*)a[0])); }
void o173(void* const* a, void* r) { (void)a; (void)r; R(U64, std::hash<zcm::mat2>()(*(const zcm::mat2*)a[0])); }
void o174(void* const* a, void* r) { (void)a; (void)r; R(U64, std::hash<zcm::mat3>()(*(const zcm::mat3*)a[0])); }
void o175(void* const* a, void* r) { (void)a; (void)r; R(U64, std::hash<zcm::mat4>()(*(const zcm::mat4*)a[0])); }
void o176(void* const* a, void* r) { (void)a; (void)r; R(U64, std::hash<zcm::quat>()(*(const zcm::quat*)a[0])); }
}
extern const OpDesc zcm_ops_11[] = {
  {"bvec4.[2] =", o0, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 2, 1},
  {"bvec4.[2] ^=", o1, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 2, 1},
  {"bvec4.value_ptr[2] =", o2, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 2, 1},
  {"bvec4.w =", o3, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 3, 1},
  {"bvec4.[3] =", o4, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 3, 1},
  {"bvec4.[3] ^=", o5, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 3, 1},
  {"bvec4.value_ptr[3] =", o6, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 3, 1},
  {"value_ptr(const bvec4)", o7, T_BVEC4, 1, {{T_BVEC4, 1, D_ANY, 0}}, -1, 0},
  {"quat.x =", o8, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"quat.[0] =", o9, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"quat.[0] +=", o10, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"quat.value_ptr[0] =", o11, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"quat.value_ptr[0] *=", o12, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"quat.y =", o13, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"quat.[1] =", o14, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"quat.[1] +=", o15, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"quat.value_ptr[1] =", o16, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"quat.value_ptr[1] *=", o17, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"quat.z =", o18, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"quat.[2] =", o19, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"quat.[2] +=", o20, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"quat.value_ptr[2] =", o21, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"quat.value_ptr[2] *=", o22, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"quat.w =", o23, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"quat.[3] =", o24, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"quat.[3] +=", o25, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"quat.value_ptr[3] =", o26, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"quat.value_ptr[3] *=", o27, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"value_ptr(const quat)", o28, T_QUAT, 1, {{T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"mat2[0] = vec2", o29, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, 0, 8},
  {"mat2[0] += vec2", o30, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, 0, 8},
  {"mat2[0] -= vec2", o31, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, 0, 8},
  {"mat2[0] *= vec2", o32, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, 0, 8},
  {"mat2[0] *= float", o33, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 8},
  {"mat2[0][0] =", o34, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"mat2[0].x +=", o35, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"mat2 value_ptr[0] =", o36, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"mat2[0][1] =", o37, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"mat2[0].y +=", o38, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"mat2 value_ptr[1] =", o39, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"mat2[1] = vec2", o40, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, 8, 8},
  {"mat2[1] += vec2", o41, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, 8, 8},
  {"mat2[1] -= vec2", o42, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, 8, 8},
  {"mat2[1] *= vec2", o43, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, 8, 8},
  {"mat2[1] *= float", o44, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 8},
  {"mat2[1][0] =", o45, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"mat2[1].x +=", o46, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"mat2 value_ptr[2] =", o47, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"mat2[1][1] =", o48, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"mat2[1].y +=", o49, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"mat2 value_ptr[3] =", o50, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"value_ptr(const mat2)", o51, T_MAT2, 1, {{T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"mat3[0] = vec3", o52, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, 0, 12},
  {"mat3[0] += vec3", o53, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, 0, 12},
  {"mat3[0] -= vec3", o54, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, 0, 12},
  {"mat3[0] *= vec3", o55, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, 0, 12},
  {"mat3[0] *= float", o56, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 12},
  {"mat3[0][0] =", o57, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"mat3[0].x +=", o58, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"mat3 value_ptr[0] =", o59, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"mat3[0][1] =", o60, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"mat3[0].y +=", o61, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"mat3 value_ptr[1] =", o62, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"mat3[0][2] =", o63, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"mat3[0].z +=", o64, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"mat3 value_ptr[2] =", o65, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"mat3[1] = vec3", o66, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, 12, 12},
  {"mat3[1] += vec3", o67, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, 12, 12},
  {"mat3[1] -= vec3", o68, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, 12, 12},
  {"mat3[1] *= vec3", o69, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, 12, 12},
  {"mat3[1] *= float", o70, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 12},
  {"mat3[1][0] =", o71, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"mat3[1].x +=", o72, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"mat3 value_ptr[3] =", o73, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"mat3[1][1] =", o74, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 16, 4},
  {"mat3[1].y +=", o75, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 16, 4},
  {"mat3 value_ptr[4] =", o76, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 16, 4},
  {"mat3[1][2] =", o77, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 20, 4},
  {"mat3[1].z +=", o78, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 20, 4},
  {"mat3 value_ptr[5] =", o79, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 20, 4},
  {"mat3[2] = vec3", o80, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, 24, 12},
  {"mat3[2] += vec3", o81, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, 24, 12},
  {"mat3[2] -= vec3", o82, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, 24, 12},
  {"mat3[2] *= vec3", o83, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, 24, 12},
  {"mat3[2] *= float", o84, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 24, 12},
  {"mat3[2][0] =", o85, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 24, 4},
  {"mat3[2].x +=", o86, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 24, 4},
  {"mat3 value_ptr[6] =", o87, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 24, 4},
  {"mat3[2][1] =", o88, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 28, 4},
  {"mat3[2].y +=", o89, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 28, 4},
  {"mat3 value_ptr[7] =", o90, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 28, 4},
  {"mat3[2][2] =", o91, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 32, 4},
  {"mat3[2].z +=", o92, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 32, 4},
  {"mat3 value_ptr[8] =", o93, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 32, 4},
  {"value_ptr(const mat3)", o94, T_MAT3, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"mat4[0] = vec4", o95, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 0, 16},
  {"mat4[0] += vec4", o96, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 0, 16},
  {"mat4[0] -= vec4", o97, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 0, 16},
  {"mat4[0] *= vec4", o98, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 0, 16},
  {"mat4[0] *= float", o99, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 16},
  {"mat4[0][0] =", o100, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"mat4[0].x +=", o101, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"mat4 value_ptr[0] =", o102, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"mat4[0][1] =", o103, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"mat4[0].y +=", o104, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"mat4 value_ptr[1] =", o105, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"mat4[0][2] =", o106, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"mat4[0].z +=", o107, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"mat4 value_ptr[2] =", o108, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"mat4[0][3] =", o109, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"mat4[0].w +=", o110, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"mat4 value_ptr[3] =", o111, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"mat4[1] = vec4", o112, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 16, 16},
  {"mat4[1] += vec4", o113, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 16, 16},
  {"mat4[1] -= vec4", o114, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 16, 16},
  {"mat4[1] *= vec4", o115, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 16, 16},
  {"mat4[1] *= float", o116, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 16, 16},
  {"mat4[1][0] =", o117, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 16, 4},
  {"mat4[1].x +=", o118, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 16, 4},
  {"mat4 value_ptr[4] =", o119, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 16, 4},
  {"mat4[1][1] =", o120, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 20, 4},
  {"mat4[1].y +=", o121, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 20, 4},
  {"mat4 value_ptr[5] =", o122, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 20, 4},
  {"mat4[1][2] =", o123, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 24, 4},
  {"mat4[1].z +=", o124, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 24, 4},
  {"mat4 value_ptr[6] =", o125, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 24, 4},
  {"mat4[1][3] =", o126, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 28, 4},
  {"mat4[1].w +=", o127, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 28, 4},
  {"mat4 value_ptr[7] =", o128, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 28, 4},
  {"mat4[2] = vec4", o129, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 32, 16},
  {"mat4[2] += vec4", o130, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 32, 16},
  {"mat4[2] -= vec4", o131, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 32, 16},
  {"mat4[2] *= vec4", o132, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 32, 16},
  {"mat4[2] *= float", o133, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 32, 16},
  {"mat4[2][0] =", o134, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 32, 4},
  {"mat4[2].x +=", o135, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 32, 4},
  {"mat4 value_ptr[8] =", o136, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 32, 4},
  {"mat4[2][1] =", o137, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 36, 4},
  {"mat4[2].y +=", o138, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 36, 4},
  {"mat4 value_ptr[9] =", o139, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 36, 4},
  {"mat4[2][2] =", o140, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 40, 4},
  {"mat4[2].z +=", o141, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 40, 4},
  {"mat4 value_ptr[10] =", o142, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 40, 4},
  {"mat4[2][3] =", o143, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 44, 4},
  {"mat4[2].w +=", o144, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 44, 4},
  {"mat4 value_ptr[11] =", o145, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 44, 4},
  {"mat4[3] = vec4", o146, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 48, 16},
  {"mat4[3] += vec4", o147, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 48, 16},
  {"mat4[3] -= vec4", o148, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 48, 16},
  {"mat4[3] *= vec4", o149, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, 48, 16},
  {"mat4[3] *= float", o150, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 48, 16},
  {"mat4[3][0] =", o151, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 48, 4},
  {"mat4[3].x +=", o152, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 48, 4},
  {"mat4 value_ptr[12] =", o153, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 48, 4},
  {"mat4[3][1] =", o154, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 52, 4},
  {"mat4[3].y +=", o155, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 52, 4},
  {"mat4 value_ptr[13] =", o156, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 52, 4},
  {"mat4[3][2] =", o157, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 56, 4},
  {"mat4[3].z +=", o158, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 56, 4},
  {"mat4 value_ptr[14] =", o159, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 56, 4},
  {"mat4[3][3] =", o160, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 60, 4},
  {"mat4[3].w +=", o161, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 60, 4},
  {"mat4 value_ptr[15] =", o162, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 60, 4},
  {"value_ptr(const mat4)", o163, T_MAT4, 1, {{T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"std::hash<vec2>", o164, T_U64, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"std::hash<vec3>", o165, T_U64, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"std::hash<vec4>", o166, T_U64, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"std::hash<ivec2>", o167, T_U64, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"std::hash<ivec3>", o168, T_U64, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"std::hash<ivec4>", o169, T_U64, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"std::hash<bvec2>", o170, T_U64, 1, {{T_BVEC2, 1, D_ANY, 0}}, -1, 0},
  {"std::hash<bvec3>", o171, T_U64, 1, {{T_BVEC3, 1, D_ANY, 0}}, -1, 0},
  {"std::hash<bvec4>", o172, T_U64, 1, {{T_BVEC4, 1, D_ANY, 0}}, -1, 0},
  {"std::hash<mat2>", o173, T_U64, 1, {{T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"std::hash<mat3>", o174, T_U64, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"std::hash<mat4>", o175, T_U64, 1, {{T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"std::hash<quat>", o176, T_U64, 1, {{T_QUAT, 1, D_ANY, 0}}, -1, 0},
};
extern const unsigned zcm_nops_11 = 177;
