// generated by tools/genops.py from the public headers; do not edit
#include <stddef.h>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/fwd.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

#include <new>
#include <functional>
#include "ops.hpp"
#define R(T, ...) new (r) CT_##T(__VA_ARGS__)
typedef float CT_FLOAT;
typedef int32_t CT_INT;
typedef unsigned CT_UINT;
typedef bool CT_BOOL;
typedef size_t CT_U64;
typedef zcm::vec2 CT_VEC2;
typedef zcm::vec3 CT_VEC3;
typedef zcm::vec4 CT_VEC4;
typedef zcm::ivec2 CT_IVEC2;
typedef zcm::ivec3 CT_IVEC3;
typedef zcm::ivec4 CT_IVEC4;
typedef zcm::bvec2 CT_BVEC2;
typedef zcm::bvec3 CT_BVEC3;
typedef zcm::bvec4 CT_BVEC4;
typedef zcm::mat2 CT_MAT2;
typedef zcm::mat3 CT_MAT3;
typedef zcm::mat4 CT_MAT4;
typedef zcm::quat CT_QUAT;
namespace {
void o0(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::conjugate(*(const zcm::quat*)a[0])); }
void o1(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::inverse(*(const zcm::quat*)a[0])); }
void o2(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::lerp(*(const zcm::quat*)a[0], *(const zcm::quat*)a[1], *(const float*)a[2])); }
void o3(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::nlerp(*(const zcm::quat*)a[0], *(const zcm::quat*)a[1], *(const float*)a[2])); }
void o4(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::slerp(*(const zcm::quat*)a[0], *(const zcm::quat*)a[1], *(const float*)a[2])); }
void o5(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::axis(*(const zcm::quat*)a[0])); }
void o6(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::angle(*(const zcm::quat*)a[0])); }
void o7(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::angleAxis(*(const float*)a[0], *(const zcm::vec3*)a[1])); }
void o8(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::rotate(*(const zcm::quat*)a[0], *(const float*)a[1], *(const zcm::vec3*)a[2])); }
void o9(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::eulerAngles(*(const zcm::quat*)a[0])); }
void o10(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::pitch(*(const zcm::quat*)a[0])); }
void o11(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::yaw(*(const zcm::quat*)a[0])); }
void o12(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::roll(*(const zcm::quat*)a[0])); }
void o13(void* const* a, void* r) { (void)a; (void)r; R(MAT3, zcm::mat3_cast(*(const zcm::quat*)a[0])); }
void o14(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::mat4_cast(*(const zcm::quat*)a[0])); }
void o15(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::quat_cast(*(const zcm::mat3*)a[0])); }
void o16(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::quat_cast(*(const zcm::mat4*)a[0])); }
void o17(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::quatLookAtLH(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o18(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::quatLookAtRH(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o19(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).x = *(const float*)a[1]; }
void o20(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).x += *(const float*)a[1]; }
void o21(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).x -= *(const float*)a[1]; }
void o22(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).x *= *(const float*)a[1]; }
void o23(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).x /= *(const float*)a[1]; }
void o24(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, ++(*(zcm::vec2*)a[0]).x); }
void o25(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec2*)a[0]).x++); }
void o26(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, --(*(zcm::vec2*)a[0]).x); }
void o27(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec2*)a[0]).x--); }
void o28(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).r = *(const float*)a[1]; }
void o29(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).s += *(const float*)a[1]; }
void o30(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(const zcm::vec2*)a[0]).x); }
void o31(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0])[0u] = *(const float*)a[1]; }
void o32(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0])[0u] += *(const float*)a[1]; }
void o33(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec2*)a[0]))[0] = *(const float*)a[1]; }
void o34(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec2*)a[0]))[0] *= *(const float*)a[1]; }
void o35(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).y = *(const float*)a[1]; }
void o36(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).y += *(const float*)a[1]; }
void o37(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).y -= *(const float*)a[1]; }
void o38(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).y *= *(const float*)a[1]; }
void o39(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).y /= *(const float*)a[1]; }
void o40(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, ++(*(zcm::vec2*)a[0]).y); }
void o41(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec2*)a[0]).y++); }
void o42(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, --(*(zcm::vec2*)a[0]).y); }
void o43(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec2*)a[0]).y--); }
void o44(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).g = *(const float*)a[1]; }
void o45(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]).t += *(const float*)a[1]; }
void o46(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(const zcm::vec2*)a[0]).y); }
void o47(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0])[1u] = *(const float*)a[1]; }
void o48(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0])[1u] += *(const float*)a[1]; }
void o49(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec2*)a[0]))[1] = *(const float*)a[1]; }
void o50(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec2*)a[0]))[1] *= *(const float*)a[1]; }
void o51(void* const* a, void* r) { (void)a; (void)r; const float* p = zcm::value_ptr(*(const zcm::vec2*)a[0]); for(int i=0;i<2;i++) ((float*)r)[i]=p[i]; }
void o52(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).x = *(const float*)a[1]; }
void o53(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).x += *(const float*)a[1]; }
void o54(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).x -= *(const float*)a[1]; }
void o55(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).x *= *(const float*)a[1]; }
void o56(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).x /= *(const float*)a[1]; }
void o57(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, ++(*(zcm::vec3*)a[0]).x); }
void o58(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec3*)a[0]).x++); }
void o59(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, --(*(zcm::vec3*)a[0]).x); }
void o60(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec3*)a[0]).x--); }
void o61(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).r = *(const float*)a[1]; }
void o62(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).s += *(const float*)a[1]; }
void o63(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(const zcm::vec3*)a[0]).x); }
void o64(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0])[0u] = *(const float*)a[1]; }
void o65(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0])[0u] += *(const float*)a[1]; }
void o66(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec3*)a[0]))[0] = *(const float*)a[1]; }
void o67(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec3*)a[0]))[0] *= *(const float*)a[1]; }
void o68(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).y = *(const float*)a[1]; }
void o69(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).y += *(const float*)a[1]; }
void o70(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).y -= *(const float*)a[1]; }
void o71(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).y *= *(const float*)a[1]; }
void o72(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).y /= *(const float*)a[1]; }
void o73(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, ++(*(zcm::vec3*)a[0]).y); }
void o74(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec3*)a[0]).y++); }
void o75(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, --(*(zcm::vec3*)a[0]).y); }
void o76(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec3*)a[0]).y--); }
void o77(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).g = *(const float*)a[1]; }
void o78(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).t += *(const float*)a[1]; }
void o79(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(const zcm::vec3*)a[0]).y); }
void o80(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0])[1u] = *(const float*)a[1]; }
void o81(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0])[1u] += *(const float*)a[1]; }
void o82(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec3*)a[0]))[1] = *(const float*)a[1]; }
void o83(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec3*)a[0]))[1] *= *(const float*)a[1]; }
void o84(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).z = *(const float*)a[1]; }
void o85(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).z += *(const float*)a[1]; }
void o86(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).z -= *(const float*)a[1]; }
void o87(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).z *= *(const float*)a[1]; }
void o88(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).z /= *(const float*)a[1]; }
void o89(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, ++(*(zcm::vec3*)a[0]).z); }
void o90(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec3*)a[0]).z++); }
void o91(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, --(*(zcm::vec3*)a[0]).z); }
void o92(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec3*)a[0]).z--); }
void o93(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).b = *(const float*)a[1]; }
void o94(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]).p += *(const float*)a[1]; }
void o95(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(const zcm::vec3*)a[0]).z); }
void o96(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0])[2u] = *(const float*)a[1]; }
void o97(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0])[2u] += *(const float*)a[1]; }
void o98(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec3*)a[0]))[2] = *(const float*)a[1]; }
void o99(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec3*)a[0]))[2] *= *(const float*)a[1]; }
void o100(void* const* a, void* r) { (void)a; (void)r; const float* p = zcm::value_ptr(*(const zcm::vec3*)a[0]); for(int i=0;i<3;i++) ((float*)r)[i]=p[i]; }
void o101(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).x = *(const float*)a[1]; }
void o102(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).x += *(const float*)a[1]; }
void o103(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).x -= *(const float*)a[1]; }
void o104(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).x *= *(const float*)a[1]; }
void o105(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).x /= *(const float*)a[1]; }
void o106(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, ++(*(zcm::vec4*)a[0]).x); }
void o107(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec4*)a[0]).x++); }
void o108(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, --(*(zcm::vec4*)a[0]).x); }
void o109(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec4*)a[0]).x--); }
void o110(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).r = *(const float*)a[1]; }
void o111(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).s += *(const float*)a[1]; }
void o112(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(const zcm::vec4*)a[0]).x); }
void o113(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0])[0u] = *(const float*)a[1]; }
void o114(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0])[0u] += *(const float*)a[1]; }
void o115(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec4*)a[0]))[0] = *(const float*)a[1]; }
void o116(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec4*)a[0]))[0] *= *(const float*)a[1]; }
void o117(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).y = *(const float*)a[1]; }
void o118(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).y += *(const float*)a[1]; }
void o119(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).y -= *(const float*)a[1]; }
void o120(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).y *= *(const float*)a[1]; }
void o121(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).y /= *(const float*)a[1]; }
void o122(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, ++(*(zcm::vec4*)a[0]).y); }
void o123(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec4*)a[0]).y++); }
void o124(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, --(*(zcm::vec4*)a[0]).y); }
void o125(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec4*)a[0]).y--); }
void o126(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).g = *(const float*)a[1]; }
void o127(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).t += *(const float*)a[1]; }
void o128(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(const zcm::vec4*)a[0]).y); }
void o129(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0])[1u] = *(const float*)a[1]; }
void o130(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0])[1u] += *(const float*)a[1]; }
void o131(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec4*)a[0]))[1] = *(const float*)a[1]; }
void o132(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec4*)a[0]))[1] *= *(const float*)a[1]; }
void o133(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).z = *(const float*)a[1]; }
void o134(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).z += *(const float*)a[1]; }
void o135(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).z -= *(const float*)a[1]; }
void o136(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).z *= *(const float*)a[1]; }
void o137(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).z /= *(const float*)a[1]; }
void o138(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, ++(*(zcm::vec4*)a[0]).z); }
void o139(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec4*)a[0]).z++); }
void o140(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, --(*(zcm::vec4*)a[0]).z); }
void o141(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec4*)a[0]).z--); }
void o142(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).b = *(const float*)a[1]; }
void o143(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).p += *(const float*)a[1]; }
void o144(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(const zcm::vec4*)a[0]).z); }
void o145(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0])[2u] = *(const float*)a[1]; }
void o146(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0])[2u] += *(const float*)a[1]; }
void o147(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec4*)a[0]))[2] = *(const float*)a[1]; }
void o148(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec4*)a[0]))[2] *= *(const float*)a[1]; }
void o149(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).w = *(const float*)a[1]; }
void o150(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).w += *(const float*)a[1]; }
void o151(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).w -= *(const float*)a[1]; }
void o152(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).w *= *(const float*)a[1]; }
void o153(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).w /= *(const float*)a[1]; }
void o154(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, ++(*(zcm::vec4*)a[0]).w); }
void o155(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec4*)a[0]).w++); }
void o156(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, --(*(zcm::vec4*)a[0]).w); }
void o157(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec4*)a[0]).w--); }
void o158(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).a = *(const float*)a[1]; }
void o159(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]).q += *(const float*)a[1]; }
void o160(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(const zcm::vec4*)a[0]).w); }
void o161(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0])[3u] = *(const float*)a[1]; }
void o162(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0])[3u] += *(const float*)a[1]; }
void o163(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec4*)a[0]))[3] = *(const float*)a[1]; }
void o164(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::vec4*)a[0]))[3] *= *(const float*)a[1]; }
void o165(void* const* a, void* r) { (void)a; (void)r; const float* p = zcm::value_ptr(*(const zcm::vec4*)a[0]); for(int i=0;i<4;i++) ((float*)r)[i]=p[i]; }
void o166(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).x += *(const int32_t*)a[1]; }
void o167(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).x -= *(const int32_t*)a[1]; }
void o168(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).x *= *(const int32_t*)a[1]; }
void o169(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).x /= *(const int32_t*)a[1]; }
void o170(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).x %= *(const int32_t*)a[1]; }
void o171(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).x |= *(const int32_t*)a[1]; }
void o172(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).x &= *(const int32_t*)a[1]; }
void o173(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).x ^= *(const int32_t*)a[1]; }
void o174(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).x <<= *(const int32_t*)a[1]; }
void o175(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).x >>= *(const int32_t*)a[1]; }
void o176(void* const* a, void* r) { (void)a; (void)r; R(INT, ++(*(zcm::ivec2*)a[0]).x); }
void o177(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec2*)a[0]).x++); }
void o178(void* const* a, void* r) { (void)a; (void)r; R(INT, --(*(zcm::ivec2*)a[0]).x); }
void o179(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec2*)a[0]).x--); }
void o180(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).r -= *(const int32_t*)a[1]; }
void o181(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).s += *(const int32_t*)a[1]; }
void o182(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(const zcm::ivec2*)a[0]).x); }
void o183(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0])[0u] = *(const int32_t*)a[1]; }
}
extern const OpDesc zcm_ops_09[] = {
  {"conjugate(quat)", o0, T_QUAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"inverse(quat)", o1, T_QUAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"lerp(quat,quat,float)", o2, T_QUAT, 3, {{T_QUAT, 0, D_ANY, 0}, {T_QUAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_UNIT, 0}}, -1, 0},
  {"nlerp(quat,quat,float)", o3, T_QUAT, 3, {{T_QUAT, 0, D_ANY, 0}, {T_QUAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_UNIT, 0}}, -1, 0},
  {"slerp(quat,quat,float)", o4, T_QUAT, 3, {{T_QUAT, 0, D_ANY, 0}, {T_QUAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"axis(quat)", o5, T_VEC3, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"angle(quat)", o6, T_FLOAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"angleAxis(float,vec3)", o7, T_QUAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"rotate(quat,float,vec3)", o8, T_QUAT, 3, {{T_QUAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"eulerAngles(quat)", o9, T_VEC3, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"pitch(quat)", o10, T_FLOAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"yaw(quat)", o11, T_FLOAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"roll(quat)", o12, T_FLOAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"mat3_cast(quat)", o13, T_MAT3, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"mat4_cast(quat)", o14, T_MAT4, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"quat_cast(mat3)", o15, T_QUAT, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"quat_cast(mat4)", o16, T_QUAT, 1, {{T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"quatLookAtLH(vec3,vec3)", o17, T_QUAT, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"quatLookAtRH(vec3,vec3)", o18, T_QUAT, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec2.x =", o19, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec2.x +=", o20, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec2.x -=", o21, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec2.x *=", o22, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec2.x /=", o23, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec2.++x", o24, T_FLOAT, 1, {{T_VEC2, 2, D_ANY, 0}}, 0, 4},
  {"vec2.x++", o25, T_FLOAT, 1, {{T_VEC2, 2, D_ANY, 0}}, 0, 4},
  {"vec2.--x", o26, T_FLOAT, 1, {{T_VEC2, 2, D_ANY, 0}}, 0, 4},
  {"vec2.x--", o27, T_FLOAT, 1, {{T_VEC2, 2, D_ANY, 0}}, 0, 4},
  {"vec2.r =", o28, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec2.s +=", o29, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec2.x read", o30, T_FLOAT, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"vec2.[0] =", o31, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec2.[0] +=", o32, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec2.value_ptr[0] =", o33, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec2.value_ptr[0] *=", o34, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec2.y =", o35, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec2.y +=", o36, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec2.y -=", o37, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec2.y *=", o38, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec2.y /=", o39, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec2.++y", o40, T_FLOAT, 1, {{T_VEC2, 2, D_ANY, 0}}, 4, 4},
  {"vec2.y++", o41, T_FLOAT, 1, {{T_VEC2, 2, D_ANY, 0}}, 4, 4},
  {"vec2.--y", o42, T_FLOAT, 1, {{T_VEC2, 2, D_ANY, 0}}, 4, 4},
  {"vec2.y--", o43, T_FLOAT, 1, {{T_VEC2, 2, D_ANY, 0}}, 4, 4},
  {"vec2.g =", o44, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec2.t +=", o45, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec2.y read", o46, T_FLOAT, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"vec2.[1] =", o47, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec2.[1] +=", o48, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec2.value_ptr[1] =", o49, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec2.value_ptr[1] *=", o50, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"value_ptr(const vec2)", o51, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"vec3.x =", o52, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec3.x +=", o53, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec3.x -=", o54, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec3.x *=", o55, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec3.x /=", o56, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec3.++x", o57, T_FLOAT, 1, {{T_VEC3, 2, D_ANY, 0}}, 0, 4},
  {"vec3.x++", o58, T_FLOAT, 1, {{T_VEC3, 2, D_ANY, 0}}, 0, 4},
  {"vec3.--x", o59, T_FLOAT, 1, {{T_VEC3, 2, D_ANY, 0}}, 0, 4},
  {"vec3.x--", o60, T_FLOAT, 1, {{T_VEC3, 2, D_ANY, 0}}, 0, 4},
  {"vec3.r =", o61, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec3.s +=", o62, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec3.x read", o63, T_FLOAT, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.[0] =", o64, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec3.[0] +=", o65, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec3.value_ptr[0] =", o66, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec3.value_ptr[0] *=", o67, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec3.y =", o68, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec3.y +=", o69, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec3.y -=", o70, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec3.y *=", o71, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec3.y /=", o72, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec3.++y", o73, T_FLOAT, 1, {{T_VEC3, 2, D_ANY, 0}}, 4, 4},
  {"vec3.y++", o74, T_FLOAT, 1, {{T_VEC3, 2, D_ANY, 0}}, 4, 4},
  {"vec3.--y", o75, T_FLOAT, 1, {{T_VEC3, 2, D_ANY, 0}}, 4, 4},
  {"vec3.y--", o76, T_FLOAT, 1, {{T_VEC3, 2, D_ANY, 0}}, 4, 4},
  {"vec3.g =", o77, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec3.t +=", o78, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec3.y read", o79, T_FLOAT, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.[1] =", o80, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec3.[1] +=", o81, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec3.value_ptr[1] =", o82, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec3.value_ptr[1] *=", o83, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec3.z =", o84, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec3.z +=", o85, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec3.z -=", o86, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec3.z *=", o87, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec3.z /=", o88, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec3.++z", o89, T_FLOAT, 1, {{T_VEC3, 2, D_ANY, 0}}, 8, 4},
  {"vec3.z++", o90, T_FLOAT, 1, {{T_VEC3, 2, D_ANY, 0}}, 8, 4},
  {"vec3.--z", o91, T_FLOAT, 1, {{T_VEC3, 2, D_ANY, 0}}, 8, 4},
  {"vec3.z--", o92, T_FLOAT, 1, {{T_VEC3, 2, D_ANY, 0}}, 8, 4},
  {"vec3.b =", o93, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec3.p +=", o94, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec3.z read", o95, T_FLOAT, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.[2] =", o96, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec3.[2] +=", o97, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec3.value_ptr[2] =", o98, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec3.value_ptr[2] *=", o99, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"value_ptr(const vec3)", o100, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec4.x =", o101, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec4.x +=", o102, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec4.x -=", o103, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec4.x *=", o104, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec4.x /=", o105, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec4.++x", o106, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 0, 4},
  {"vec4.x++", o107, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 0, 4},
  {"vec4.--x", o108, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 0, 4},
  {"vec4.x--", o109, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 0, 4},
  {"vec4.r =", o110, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec4.s +=", o111, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec4.x read", o112, T_FLOAT, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.[0] =", o113, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec4.[0] +=", o114, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec4.value_ptr[0] =", o115, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec4.value_ptr[0] *=", o116, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 0, 4},
  {"vec4.y =", o117, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec4.y +=", o118, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec4.y -=", o119, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec4.y *=", o120, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec4.y /=", o121, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec4.++y", o122, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 4, 4},
  {"vec4.y++", o123, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 4, 4},
  {"vec4.--y", o124, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 4, 4},
  {"vec4.y--", o125, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 4, 4},
  {"vec4.g =", o126, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec4.t +=", o127, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec4.y read", o128, T_FLOAT, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.[1] =", o129, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec4.[1] +=", o130, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec4.value_ptr[1] =", o131, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec4.value_ptr[1] *=", o132, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 4, 4},
  {"vec4.z =", o133, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec4.z +=", o134, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec4.z -=", o135, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec4.z *=", o136, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec4.z /=", o137, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec4.++z", o138, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 8, 4},
  {"vec4.z++", o139, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 8, 4},
  {"vec4.--z", o140, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 8, 4},
  {"vec4.z--", o141, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 8, 4},
  {"vec4.b =", o142, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec4.p +=", o143, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec4.z read", o144, T_FLOAT, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.[2] =", o145, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec4.[2] +=", o146, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec4.value_ptr[2] =", o147, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec4.value_ptr[2] *=", o148, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 8, 4},
  {"vec4.w =", o149, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"vec4.w +=", o150, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"vec4.w -=", o151, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"vec4.w *=", o152, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"vec4.w /=", o153, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"vec4.++w", o154, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 12, 4},
  {"vec4.w++", o155, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 12, 4},
  {"vec4.--w", o156, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 12, 4},
  {"vec4.w--", o157, T_FLOAT, 1, {{T_VEC4, 2, D_ANY, 0}}, 12, 4},
  {"vec4.a =", o158, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"vec4.q +=", o159, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"vec4.w read", o160, T_FLOAT, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.[3] =", o161, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"vec4.[3] +=", o162, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"vec4.value_ptr[3] =", o163, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"vec4.value_ptr[3] *=", o164, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, 12, 4},
  {"value_ptr(const vec4)", o165, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec2.x +=", o166, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec2.x -=", o167, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec2.x *=", o168, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec2.x /=", o169, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 0, 4},
  {"ivec2.x %=", o170, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 0, 4},
  {"ivec2.x |=", o171, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec2.x &=", o172, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec2.x ^=", o173, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec2.x <<=", o174, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 0, 4},
  {"ivec2.x >>=", o175, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 0, 4},
  {"ivec2.++x", o176, T_INT, 1, {{T_IVEC2, 2, D_ANY, 0}}, 0, 4},
  {"ivec2.x++", o177, T_INT, 1, {{T_IVEC2, 2, D_ANY, 0}}, 0, 4},
  {"ivec2.--x", o178, T_INT, 1, {{T_IVEC2, 2, D_ANY, 0}}, 0, 4},
  {"ivec2.x--", o179, T_INT, 1, {{T_IVEC2, 2, D_ANY, 0}}, 0, 4},
  {"ivec2.r -=", o180, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec2.s +=", o181, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec2.x read", o182, T_INT, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"ivec2.[0] =", o183, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
};
extern const unsigned zcm_nops_09 = 184;
