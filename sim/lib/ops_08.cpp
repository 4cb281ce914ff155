// generated by tools/genops.py from the public headers; do not edit
#include <stddef.h>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/fwd.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

#include <new>
#include <functional>
#include "ops.hpp"
#define R(T, ...) new (r) CT_##T(__VA_ARGS__)
typedef float CT_FLOAT;
typedef int32_t CT_INT;
typedef unsigned CT_UINT;
typedef bool CT_BOOL;
typedef size_t CT_U64;
typedef zcm::vec2 CT_VEC2;
typedef zcm::vec3 CT_VEC3;
typedef zcm::vec4 CT_VEC4;
typedef zcm::ivec2 CT_IVEC2;
typedef zcm::ivec3 CT_IVEC3;
typedef zcm::ivec4 CT_IVEC4;
typedef zcm::bvec2 CT_BVEC2;
typedef zcm::bvec3 CT_BVEC3;
typedef zcm::bvec4 CT_BVEC4;
typedef zcm::mat2 CT_MAT2;
typedef zcm::mat3 CT_MAT3;
typedef zcm::mat4 CT_MAT4;
typedef zcm::quat CT_QUAT;
namespace {
void o0(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::mat2*)a[0]) == (*(const zcm::mat2*)a[1])); }
void o1(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::mat2*)a[0]) != (*(const zcm::mat2*)a[1])); }
void o2(void* const* a, void* r) { (void)a; (void)r; R(MAT2, (*(const zcm::mat2*)a[0]) + (*(const zcm::mat2*)a[1])); }
void o3(void* const* a, void* r) { (void)a; (void)r; R(MAT2, (*(const zcm::mat2*)a[0]) - (*(const zcm::mat2*)a[1])); }
void o4(void* const* a, void* r) { (void)a; (void)r; R(MAT2, (*(const zcm::mat2*)a[0]) * (*(const zcm::mat2*)a[1])); }
void o5(void* const* a, void* r) { (void)a; (void)r; R(MAT2, (*(const zcm::mat2*)a[0]) / (*(const zcm::mat2*)a[1])); }
void o6(void* const* a, void* r) { (void)a; (void)r; R(MAT2, (*(const zcm::mat2*)a[0]) * (*(const float*)a[1])); }
void o7(void* const* a, void* r) { (void)a; (void)r; R(MAT2, (*(const zcm::mat2*)a[0]) / (*(const float*)a[1])); }
void o8(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const zcm::mat2*)a[0]) * (*(const zcm::vec2*)a[1])); }
void o9(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const zcm::vec2*)a[0]) * (*(const zcm::mat2*)a[1])); }
void o10(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const zcm::mat2*)a[0]) / (*(const zcm::vec2*)a[1])); }
void o11(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const zcm::vec2*)a[0]) / (*(const zcm::mat2*)a[1])); }
void o12(void* const* a, void* r) { (void)a; (void)r; R(MAT2, (*(const float*)a[0]) * (*(const zcm::mat2*)a[1])); }
void o13(void* const* a, void* r) { (void)a; (void)r; R(MAT2, (*(const float*)a[0]) / (*(const zcm::mat2*)a[1])); }
void o14(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3()); }
void o15(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3(*(const float*)a[0])); }
void o16(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3(*(const int32_t*)a[0])); }
void o17(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2])); }
void o18(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3(*(const zcm::vec2*)a[0], *(const float*)a[1])); }
void o19(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3(*(const float*)a[0], *(const zcm::vec2*)a[1])); }
void o20(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec3*)a[0])[*(const unsigned*)a[1]]); }
void o21(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0])[*(const unsigned*)a[1]] = *(const float*)a[2]; }
void o22(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(const zcm::vec3*)a[0])[*(const unsigned*)a[1]]); }
void o23(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]) += *(const zcm::vec3*)a[1]; }
void o24(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]) -= *(const zcm::vec3*)a[1]; }
void o25(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]) *= *(const zcm::vec3*)a[1]; }
void o26(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]) /= *(const zcm::vec3*)a[1]; }
void o27(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]) += *(const float*)a[1]; }
void o28(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]) -= *(const float*)a[1]; }
void o29(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]) *= *(const float*)a[1]; }
void o30(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec3*)a[0]) /= *(const float*)a[1]; }
void o31(void* const* a, void* r) { (void)a; (void)r; R(VEC3, ++(*(zcm::vec3*)a[0])); }
void o32(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(zcm::vec3*)a[0])++); }
void o33(void* const* a, void* r) { (void)a; (void)r; R(VEC3, --(*(zcm::vec3*)a[0])); }
void o34(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(zcm::vec3*)a[0])--); }
void o35(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec3*)a[0]).xx)); }
void o36(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec3*)a[0]).yx)); }
void o37(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec3*)a[0]).zx)); }
void o38(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec3*)a[0]).xy)); }
void o39(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec3*)a[0]).yy)); }
void o40(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec3*)a[0]).zy)); }
void o41(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec3*)a[0]).xz)); }
void o42(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec3*)a[0]).yz)); }
void o43(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec3*)a[0]).zz)); }
void o44(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).xxx)); }
void o45(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).yxx)); }
void o46(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).zxx)); }
void o47(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).xyx)); }
void o48(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).yyx)); }
void o49(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).zyx)); }
void o50(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).xzx)); }
void o51(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).yzx)); }
void o52(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).zzx)); }
void o53(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).xxy)); }
void o54(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).yxy)); }
void o55(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).zxy)); }
void o56(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).xyy)); }
void o57(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).yyy)); }
void o58(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).zyy)); }
void o59(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).xzy)); }
void o60(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).yzy)); }
void o61(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).zzy)); }
void o62(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).xxz)); }
void o63(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).yxz)); }
void o64(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).zxz)); }
void o65(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).xyz)); }
void o66(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).yyz)); }
void o67(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).zyz)); }
void o68(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).xzz)); }
void o69(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).yzz)); }
void o70(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec3*)a[0]).zzz)); }
void o71(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::make_vec3((const float*)a[0])); }
void o72(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::vec3*)a[0]) == (*(const zcm::vec3*)a[1])); }
void o73(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::vec3*)a[0]) != (*(const zcm::vec3*)a[1])); }
void o74(void* const* a, void* r) { (void)a; (void)r; R(VEC3, -(*(const zcm::vec3*)a[0])); }
void o75(void* const* a, void* r) { (void)a; (void)r; R(VEC3, +(*(const zcm::vec3*)a[0])); }
void o76(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::vec3*)a[0]) + (*(const zcm::vec3*)a[1])); }
void o77(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::vec3*)a[0]) - (*(const zcm::vec3*)a[1])); }
void o78(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::vec3*)a[0]) * (*(const zcm::vec3*)a[1])); }
void o79(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::vec3*)a[0]) / (*(const zcm::vec3*)a[1])); }
void o80(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::vec3*)a[0]) + (*(const float*)a[1])); }
void o81(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::vec3*)a[0]) - (*(const float*)a[1])); }
void o82(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::vec3*)a[0]) * (*(const float*)a[1])); }
void o83(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::vec3*)a[0]) / (*(const float*)a[1])); }
void o84(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const float*)a[0]) + (*(const zcm::vec3*)a[1])); }
void o85(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const float*)a[0]) - (*(const zcm::vec3*)a[1])); }
void o86(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const float*)a[0]) * (*(const zcm::vec3*)a[1])); }
void o87(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const float*)a[0]) / (*(const zcm::vec3*)a[1])); }
void o88(void* const* a, void* r) { (void)a; (void)r; R(MAT3, zcm::mat3()); }
void o89(void* const* a, void* r) { (void)a; (void)r; R(MAT3, zcm::mat3(*(const float*)a[0])); }
void o90(void* const* a, void* r) { (void)a; (void)r; R(MAT3, zcm::mat3(*(const zcm::mat2*)a[0])); }
void o91(void* const* a, void* r) { (void)a; (void)r; R(MAT3, zcm::mat3(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1], *(const zcm::vec3*)a[2])); }
void o92(void* const* a, void* r) { (void)a; (void)r; R(MAT3, zcm::mat3(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3], *(const float*)a[4], *(const float*)a[5], *(const float*)a[6], *(const float*)a[7], *(const float*)a[8])); }
void o93(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(zcm::mat3*)a[0])[*(const unsigned*)a[1]]); }
void o94(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0])[*(const unsigned*)a[1]] = *(const zcm::vec3*)a[2]; }
void o95(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::mat3*)a[0])[*(const unsigned*)a[1]]); }
void o96(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0]) += *(const zcm::mat3*)a[1]; }
void o97(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0]) -= *(const zcm::mat3*)a[1]; }
void o98(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0]) *= *(const zcm::mat3*)a[1]; }
void o99(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat3*)a[0]) /= *(const zcm::mat3*)a[1]; }
void o100(void* const* a, void* r) { (void)a; (void)r; R(MAT2, static_cast<zcm::mat2>(*(const zcm::mat3*)a[0])); }
void o101(void* const* a, void* r) { (void)a; (void)r; R(MAT3, zcm::make_mat3((const float*)a[0])); }
void o102(void* const* a, void* r) { (void)a; (void)r; R(MAT3, -(*(const zcm::mat3*)a[0])); }
void o103(void* const* a, void* r) { (void)a; (void)r; R(MAT3, +(*(const zcm::mat3*)a[0])); }
void o104(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::mat3*)a[0]) == (*(const zcm::mat3*)a[1])); }
void o105(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::mat3*)a[0]) != (*(const zcm::mat3*)a[1])); }
void o106(void* const* a, void* r) { (void)a; (void)r; R(MAT3, (*(const zcm::mat3*)a[0]) + (*(const zcm::mat3*)a[1])); }
void o107(void* const* a, void* r) { (void)a; (void)r; R(MAT3, (*(const zcm::mat3*)a[0]) - (*(const zcm::mat3*)a[1])); }
void o108(void* const* a, void* r) { (void)a; (void)r; R(MAT3, (*(const zcm::mat3*)a[0]) * (*(const zcm::mat3*)a[1])); }
void o109(void* const* a, void* r) { (void)a; (void)r; R(MAT3, (*(const zcm::mat3*)a[0]) / (*(const zcm::mat3*)a[1])); }
void o110(void* const* a, void* r) { (void)a; (void)r; R(MAT3, (*(const zcm::mat3*)a[0]) * (*(const float*)a[1])); }
void o111(void* const* a, void* r) { (void)a; (void)r; R(MAT3, (*(const zcm::mat3*)a[0]) / (*(const float*)a[1])); }
void o112(void* const* a, void* r) { (void)a; (void)r; R(MAT3, (*(const float*)a[0]) * (*(const zcm::mat3*)a[1])); }
void o113(void* const* a, void* r) { (void)a; (void)r; R(MAT3, (*(const float*)a[0]) / (*(const zcm::mat3*)a[1])); }
void o114(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::mat3*)a[0]) * (*(const zcm::vec3*)a[1])); }
void o115(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::vec3*)a[0]) * (*(const zcm::mat3*)a[1])); }
void o116(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::mat3*)a[0]) / (*(const zcm::vec3*)a[1])); }
void o117(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::vec3*)a[0]) / (*(const zcm::mat3*)a[1])); }
void o118(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::mat4()); }
void o119(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::mat4(*(const float*)a[0])); }
void o120(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::mat4(*(const zcm::mat3*)a[0])); }
void o121(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::mat4(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1], *(const zcm::vec4*)a[2], *(const zcm::vec4*)a[3])); }
void o122(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::mat4(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3], *(const float*)a[4], *(const float*)a[5], *(const float*)a[6], *(const float*)a[7], *(const float*)a[8], *(const float*)a[9], *(const float*)a[10], *(const float*)a[11], *(const float*)a[12], *(const float*)a[13], *(const float*)a[14], *(const float*)a[15])); }
void o123(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0]) += *(const zcm::mat4*)a[1]; }
void o124(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0]) -= *(const zcm::mat4*)a[1]; }
void o125(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0]) *= *(const zcm::mat4*)a[1]; }
void o126(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0]) /= *(const zcm::mat4*)a[1]; }
void o127(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(zcm::mat4*)a[0])[*(const unsigned*)a[1]]); }
void o128(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat4*)a[0])[*(const unsigned*)a[1]] = *(const zcm::vec4*)a[2]; }
void o129(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const zcm::mat4*)a[0])[*(const unsigned*)a[1]]); }
void o130(void* const* a, void* r) { (void)a; (void)r; R(MAT3, static_cast<zcm::mat3>(*(const zcm::mat4*)a[0])); }
void o131(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::make_mat4((const float*)a[0])); }
void o132(void* const* a, void* r) { (void)a; (void)r; R(MAT4, -(*(const zcm::mat4*)a[0])); }
void o133(void* const* a, void* r) { (void)a; (void)r; R(MAT4, +(*(const zcm::mat4*)a[0])); }
void o134(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::mat4*)a[0]) == (*(const zcm::mat4*)a[1])); }
void o135(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::mat4*)a[0]) != (*(const zcm::mat4*)a[1])); }
void o136(void* const* a, void* r) { (void)a; (void)r; R(MAT4, (*(const zcm::mat4*)a[0]) + (*(const zcm::mat4*)a[1])); }
void o137(void* const* a, void* r) { (void)a; (void)r; R(MAT4, (*(const zcm::mat4*)a[0]) - (*(const zcm::mat4*)a[1])); }
void o138(void* const* a, void* r) { (void)a; (void)r; R(MAT4, (*(const zcm::mat4*)a[0]) * (*(const zcm::mat4*)a[1])); }
void o139(void* const* a, void* r) { (void)a; (void)r; R(MAT4, (*(const zcm::mat4*)a[0]) / (*(const zcm::mat4*)a[1])); }
void o140(void* const* a, void* r) { (void)a; (void)r; R(MAT4, (*(const zcm::mat4*)a[0]) * (*(const float*)a[1])); }
void o141(void* const* a, void* r) { (void)a; (void)r; R(MAT4, (*(const zcm::mat4*)a[0]) / (*(const float*)a[1])); }
void o142(void* const* a, void* r) { (void)a; (void)r; R(MAT4, (*(const float*)a[0]) * (*(const zcm::mat4*)a[1])); }
void o143(void* const* a, void* r) { (void)a; (void)r; R(MAT4, (*(const float*)a[0]) / (*(const zcm::mat4*)a[1])); }
void o144(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const zcm::mat4*)a[0]) * (*(const zcm::vec4*)a[1])); }
void o145(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const zcm::vec4*)a[0]) * (*(const zcm::mat4*)a[1])); }
void o146(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const zcm::mat4*)a[0]) / (*(const zcm::vec4*)a[1])); }
void o147(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const zcm::vec4*)a[0]) / (*(const zcm::mat4*)a[1])); }
void o148(void* const* a, void* r) { (void)a; (void)r; R(MAT2, zcm::matrixCompMult(*(const zcm::mat2*)a[0], *(const zcm::mat2*)a[1])); }
void o149(void* const* a, void* r) { (void)a; (void)r; R(MAT3, zcm::matrixCompMult(*(const zcm::mat3*)a[0], *(const zcm::mat3*)a[1])); }
void o150(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::matrixCompMult(*(const zcm::mat4*)a[0], *(const zcm::mat4*)a[1])); }
void o151(void* const* a, void* r) { (void)a; (void)r; R(MAT2, zcm::transpose(*(const zcm::mat2*)a[0])); }
void o152(void* const* a, void* r) { (void)a; (void)r; R(MAT3, zcm::transpose(*(const zcm::mat3*)a[0])); }
void o153(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::transpose(*(const zcm::mat4*)a[0])); }
void o154(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::determinant(*(const zcm::mat2*)a[0])); }
void o155(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::determinant(*(const zcm::mat3*)a[0])); }
void o156(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::determinant(*(const zcm::mat4*)a[0])); }
void o157(void* const* a, void* r) { (void)a; (void)r; R(MAT2, zcm::inverse(*(const zcm::mat2*)a[0])); }
void o158(void* const* a, void* r) { (void)a; (void)r; R(MAT3, zcm::inverse(*(const zcm::mat3*)a[0])); }
void o159(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::inverse(*(const zcm::mat4*)a[0])); }
void o160(void* const* a, void* r) { (void)a; (void)r; R(MAT2, zcm::adjugate(*(const zcm::mat2*)a[0])); }
void o161(void* const* a, void* r) { (void)a; (void)r; R(MAT3, zcm::adjugate(*(const zcm::mat3*)a[0])); }
void o162(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::adjugate(*(const zcm::mat4*)a[0])); }
void o163(void* const* a, void* r) { (void)a; (void)r; R(MAT2, zcm::inverseTranspose(*(const zcm::mat2*)a[0])); }
void o164(void* const* a, void* r) { (void)a; (void)r; R(MAT3, zcm::inverseTranspose(*(const zcm::mat3*)a[0])); }
void o165(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::inverseTranspose(*(const zcm::mat4*)a[0])); }
void o166(void* const* a, void* r) { (void)a; (void)r; R(MAT2, zcm::adjugateTranspose(*(const zcm::mat2*)a[0])); }
void o167(void* const* a, void* r) { (void)a; (void)r; R(MAT3, zcm::adjugateTranspose(*(const zcm::mat3*)a[0])); }
void o168(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::adjugateTranspose(*(const zcm::mat4*)a[0])); }
void o169(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::lookAtLH(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1], *(const zcm::vec3*)a[2])); }
void o170(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::lookAtRH(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1], *(const zcm::vec3*)a[2])); }
void o171(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::ortho(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3])); }
void o172(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::orthoLH_ZO(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3], *(const float*)a[4], *(const float*)a[5])); }
void o173(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::orthoRH_ZO(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3], *(const float*)a[4], *(const float*)a[5])); }
void o174(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::perspectiveRH_ZO(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3])); }
void o175(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::perspectiveLH_ZO(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3])); }
void o176(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::orthoLH_NO(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3], *(const float*)a[4], *(const float*)a[5])); }
void o177(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::orthoRH_NO(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3], *(const float*)a[4], *(const float*)a[5])); }
void o178(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::perspectiveRH_NO(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3])); }
void o179(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::perspectiveLH_NO(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3])); }
void o180(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::rotate(*(const zcm::mat4*)a[0], *(const float*)a[1], *(const zcm::vec3*)a[2])); }
void o181(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::scale(*(const zcm::mat4*)a[0], *(const zcm::vec3*)a[1])); }
void o182(void* const* a, void* r) { (void)a; (void)r; R(MAT4, zcm::translate(*(const zcm::mat4*)a[0], *(const zcm::vec3*)a[1])); }
void o183(void* const* a, void* r) { (void)a; (void)r; zcm::decompose_orthogonal(*(const zcm::mat4*)a[0], *(zcm::vec3*)a[1], *(zcm::quat*)a[2], *(zcm::vec3*)a[3]); }
}
extern const OpDesc zcm_ops_08[] = {
  {"operator==(mat2,mat2)", o0, T_BOOL, 2, {{T_MAT2, 1, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"operator!=(mat2,mat2)", o1, T_BOOL, 2, {{T_MAT2, 1, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"operator+(mat2,mat2)", o2, T_MAT2, 2, {{T_MAT2, 1, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"operator-(mat2,mat2)", o3, T_MAT2, 2, {{T_MAT2, 1, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"operator*(mat2,mat2)", o4, T_MAT2, 2, {{T_MAT2, 1, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"operator/(mat2,mat2)", o5, T_MAT2, 2, {{T_MAT2, 1, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"operator*(mat2,float)", o6, T_MAT2, 2, {{T_MAT2, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator/(mat2,float)", o7, T_MAT2, 2, {{T_MAT2, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator*(mat2,vec2)", o8, T_VEC2, 2, {{T_MAT2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"operator*(vec2,mat2)", o9, T_VEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"operator/(mat2,vec2)", o10, T_VEC2, 2, {{T_MAT2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"operator/(vec2,mat2)", o11, T_VEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"operator*(float,mat2)", o12, T_MAT2, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"operator/(float,mat2)", o13, T_MAT2, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"vec3::vec3()", o14, T_VEC3, 0, {}, -1, 0},
  {"vec3::vec3(float)", o15, T_VEC3, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec3::vec3(int)", o16, T_VEC3, 1, {{T_INT, 0, D_ANY, 0}}, -1, 0},
  {"vec3::vec3(float,float,float)", o17, T_VEC3, 3, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec3::vec3(vec2,float)", o18, T_VEC3, 2, {{T_VEC2, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec3::vec3(float,vec2)", o19, T_VEC3, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"vec3::operator[] read", o20, T_FLOAT, 2, {{T_VEC3, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 3}}, -1, 0},
  {"vec3::operator[] write", o21, T_VOID, 3, {{T_VEC3, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 3}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"const vec3::operator[]", o22, T_FLOAT, 2, {{T_VEC3, 1, D_ANY, 0}, {T_UINT, 0, D_IDX, 3}}, -1, 0},
  {"vec3::operator+=(vec3)", o23, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"vec3::operator-=(vec3)", o24, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"vec3::operator*=(vec3)", o25, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"vec3::operator/=(vec3)", o26, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"vec3::operator+=(float)", o27, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec3::operator-=(float)", o28, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec3::operator*=(float)", o29, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec3::operator/=(float)", o30, T_VOID, 2, {{T_VEC3, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec3::operator++()", o31, T_VEC3, 1, {{T_VEC3, 2, D_ANY, 0}}, -1, 0},
  {"vec3::operator++(int)", o32, T_VEC3, 1, {{T_VEC3, 2, D_ANY, 0}}, -1, 0},
  {"vec3::operator--()", o33, T_VEC3, 1, {{T_VEC3, 2, D_ANY, 0}}, -1, 0},
  {"vec3::operator--(int)", o34, T_VEC3, 1, {{T_VEC3, 2, D_ANY, 0}}, -1, 0},
  {"vec3.xx", o35, T_VEC2, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.yx", o36, T_VEC2, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.zx", o37, T_VEC2, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.xy", o38, T_VEC2, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.yy", o39, T_VEC2, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.zy", o40, T_VEC2, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.xz", o41, T_VEC2, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.yz", o42, T_VEC2, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.zz", o43, T_VEC2, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.xxx", o44, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.yxx", o45, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.zxx", o46, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.xyx", o47, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.yyx", o48, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.zyx", o49, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.xzx", o50, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.yzx", o51, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.zzx", o52, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.xxy", o53, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.yxy", o54, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.zxy", o55, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.xyy", o56, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.yyy", o57, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.zyy", o58, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.xzy", o59, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.yzy", o60, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.zzy", o61, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.xxz", o62, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.yxz", o63, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.zxz", o64, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.xyz", o65, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.yyz", o66, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.zyz", o67, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.xzz", o68, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.yzz", o69, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"vec3.zzz", o70, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"make_vec3(floatptr)", o71, T_VEC3, 1, {{T_FLOAT, 1, D_ARR, 3}}, -1, 0},
  {"operator==(vec3,vec3)", o72, T_BOOL, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"operator!=(vec3,vec3)", o73, T_BOOL, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"operator-(vec3)", o74, T_VEC3, 1, {{T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator+(vec3)", o75, T_VEC3, 1, {{T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator+(vec3,vec3)", o76, T_VEC3, 2, {{T_VEC3, 0, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator-(vec3,vec3)", o77, T_VEC3, 2, {{T_VEC3, 0, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator*(vec3,vec3)", o78, T_VEC3, 2, {{T_VEC3, 0, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator/(vec3,vec3)", o79, T_VEC3, 2, {{T_VEC3, 0, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator+(vec3,float)", o80, T_VEC3, 2, {{T_VEC3, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator-(vec3,float)", o81, T_VEC3, 2, {{T_VEC3, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator*(vec3,float)", o82, T_VEC3, 2, {{T_VEC3, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator/(vec3,float)", o83, T_VEC3, 2, {{T_VEC3, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator+(float,vec3)", o84, T_VEC3, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator-(float,vec3)", o85, T_VEC3, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator*(float,vec3)", o86, T_VEC3, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator/(float,vec3)", o87, T_VEC3, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"mat3::mat3()", o88, T_MAT3, 0, {}, -1, 0},
  {"mat3::mat3(float)", o89, T_MAT3, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"mat3::mat3(mat2)", o90, T_MAT3, 1, {{T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"mat3::mat3(vec3,vec3,vec3)", o91, T_MAT3, 3, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"mat3::mat3(float,float,float,float,float,float,float,float,float)", o92, T_MAT3, 9, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"mat3::operator[] read", o93, T_VEC3, 2, {{T_MAT3, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 3}}, -1, 0},
  {"mat3::operator[] write", o94, T_VOID, 3, {{T_MAT3, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 3}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"const mat3::operator[]", o95, T_VEC3, 2, {{T_MAT3, 1, D_ANY, 0}, {T_UINT, 0, D_IDX, 3}}, -1, 0},
  {"mat3::operator+=(mat3)", o96, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"mat3::operator-=(mat3)", o97, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"mat3::operator*=(mat3)", o98, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"mat3::operator/=(mat3)", o99, T_VOID, 2, {{T_MAT3, 2, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"mat3::operator mat2", o100, T_MAT2, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"make_mat3(floatptr)", o101, T_MAT3, 1, {{T_FLOAT, 1, D_ARR, 9}}, -1, 0},
  {"operator-(mat3)", o102, T_MAT3, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"operator+(mat3)", o103, T_MAT3, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"operator==(mat3,mat3)", o104, T_BOOL, 2, {{T_MAT3, 1, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"operator!=(mat3,mat3)", o105, T_BOOL, 2, {{T_MAT3, 1, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"operator+(mat3,mat3)", o106, T_MAT3, 2, {{T_MAT3, 1, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"operator-(mat3,mat3)", o107, T_MAT3, 2, {{T_MAT3, 1, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"operator*(mat3,mat3)", o108, T_MAT3, 2, {{T_MAT3, 1, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"operator/(mat3,mat3)", o109, T_MAT3, 2, {{T_MAT3, 1, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"operator*(mat3,float)", o110, T_MAT3, 2, {{T_MAT3, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator/(mat3,float)", o111, T_MAT3, 2, {{T_MAT3, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator*(float,mat3)", o112, T_MAT3, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"operator/(float,mat3)", o113, T_MAT3, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"operator*(mat3,vec3)", o114, T_VEC3, 2, {{T_MAT3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"operator*(vec3,mat3)", o115, T_VEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"operator/(mat3,vec3)", o116, T_VEC3, 2, {{T_MAT3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"operator/(vec3,mat3)", o117, T_VEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"mat4::mat4()", o118, T_MAT4, 0, {}, -1, 0},
  {"mat4::mat4(float)", o119, T_MAT4, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"mat4::mat4(mat3)", o120, T_MAT4, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"mat4::mat4(vec4,vec4,vec4,vec4)", o121, T_MAT4, 4, {{T_VEC4, 1, D_ANY, 0}, {T_VEC4, 1, D_ANY, 0}, {T_VEC4, 1, D_ANY, 0}, {T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"mat4::mat4(float,float,float,float,float,float,float,float,float,float,float,float,float,float,float,float)", o122, T_MAT4, 16, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"mat4::operator+=(mat4)", o123, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"mat4::operator-=(mat4)", o124, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"mat4::operator*=(mat4)", o125, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"mat4::operator/=(mat4)", o126, T_VOID, 2, {{T_MAT4, 2, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"mat4::operator[] read", o127, T_VEC4, 2, {{T_MAT4, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}}, -1, 0},
  {"mat4::operator[] write", o128, T_VOID, 3, {{T_MAT4, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"const mat4::operator[]", o129, T_VEC4, 2, {{T_MAT4, 1, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}}, -1, 0},
  {"mat4::operator mat3", o130, T_MAT3, 1, {{T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"make_mat4(floatptr)", o131, T_MAT4, 1, {{T_FLOAT, 1, D_ARR, 16}}, -1, 0},
  {"operator-(mat4)", o132, T_MAT4, 1, {{T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"operator+(mat4)", o133, T_MAT4, 1, {{T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"operator==(mat4,mat4)", o134, T_BOOL, 2, {{T_MAT4, 1, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"operator!=(mat4,mat4)", o135, T_BOOL, 2, {{T_MAT4, 1, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"operator+(mat4,mat4)", o136, T_MAT4, 2, {{T_MAT4, 1, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"operator-(mat4,mat4)", o137, T_MAT4, 2, {{T_MAT4, 1, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"operator*(mat4,mat4)", o138, T_MAT4, 2, {{T_MAT4, 1, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"operator/(mat4,mat4)", o139, T_MAT4, 2, {{T_MAT4, 1, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"operator*(mat4,float)", o140, T_MAT4, 2, {{T_MAT4, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator/(mat4,float)", o141, T_MAT4, 2, {{T_MAT4, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator*(float,mat4)", o142, T_MAT4, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"operator/(float,mat4)", o143, T_MAT4, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"operator*(mat4,vec4)", o144, T_VEC4, 2, {{T_MAT4, 1, D_ANY, 0}, {T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"operator*(vec4,mat4)", o145, T_VEC4, 2, {{T_VEC4, 1, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"operator/(mat4,vec4)", o146, T_VEC4, 2, {{T_MAT4, 1, D_ANY, 0}, {T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"operator/(vec4,mat4)", o147, T_VEC4, 2, {{T_VEC4, 1, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"matrixCompMult(mat2,mat2)", o148, T_MAT2, 2, {{T_MAT2, 1, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"matrixCompMult(mat3,mat3)", o149, T_MAT3, 2, {{T_MAT3, 1, D_ANY, 0}, {T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"matrixCompMult(mat4,mat4)", o150, T_MAT4, 2, {{T_MAT4, 1, D_ANY, 0}, {T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"transpose(mat2)", o151, T_MAT2, 1, {{T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"transpose(mat3)", o152, T_MAT3, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"transpose(mat4)", o153, T_MAT4, 1, {{T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"determinant(mat2)", o154, T_FLOAT, 1, {{T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"determinant(mat3)", o155, T_FLOAT, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"determinant(mat4)", o156, T_FLOAT, 1, {{T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"inverse(mat2)", o157, T_MAT2, 1, {{T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"inverse(mat3)", o158, T_MAT3, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"inverse(mat4)", o159, T_MAT4, 1, {{T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"adjugate(mat2)", o160, T_MAT2, 1, {{T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"adjugate(mat3)", o161, T_MAT3, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"adjugate(mat4)", o162, T_MAT4, 1, {{T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"inverseTranspose(mat2)", o163, T_MAT2, 1, {{T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"inverseTranspose(mat3)", o164, T_MAT3, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"inverseTranspose(mat4)", o165, T_MAT4, 1, {{T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"adjugateTranspose(mat2)", o166, T_MAT2, 1, {{T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"adjugateTranspose(mat3)", o167, T_MAT3, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"adjugateTranspose(mat4)", o168, T_MAT4, 1, {{T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"lookAtLH(vec3,vec3,vec3)", o169, T_MAT4, 3, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"lookAtRH(vec3,vec3,vec3)", o170, T_MAT4, 3, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"ortho(float,float,float,float)", o171, T_MAT4, 4, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"orthoLH_ZO(float,float,float,float,float,float)", o172, T_MAT4, 6, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"orthoRH_ZO(float,float,float,float,float,float)", o173, T_MAT4, 6, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"perspectiveRH_ZO(float,float,float,float)", o174, T_MAT4, 4, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_POS, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"perspectiveLH_ZO(float,float,float,float)", o175, T_MAT4, 4, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_POS, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"orthoLH_NO(float,float,float,float,float,float)", o176, T_MAT4, 6, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"orthoRH_NO(float,float,float,float,float,float)", o177, T_MAT4, 6, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"perspectiveRH_NO(float,float,float,float)", o178, T_MAT4, 4, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_POS, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"perspectiveLH_NO(float,float,float,float)", o179, T_MAT4, 4, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_POS, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"rotate(mat4,float,vec3)", o180, T_MAT4, 3, {{T_MAT4, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"scale(mat4,vec3)", o181, T_MAT4, 2, {{T_MAT4, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"translate(mat4,vec3)", o182, T_MAT4, 2, {{T_MAT4, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"decompose_orthogonal(mat4,vec3,quat,vec3)", o183, T_VOID, 4, {{T_MAT4, 1, D_ANY, 0}, {T_VEC3, 3, D_ANY, 0}, {T_QUAT, 3, D_ANY, 0}, {T_VEC3, 3, D_ANY, 0}}, -1, 0},
};
extern const unsigned zcm_nops_08 = 184;
