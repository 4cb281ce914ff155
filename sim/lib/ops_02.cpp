// generated by tools/genops.py from the public headers; do not edit
#include <stddef.h>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/fwd.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

#include <new>
#include <functional>
#include "ops.hpp"
#define R(T, ...) new (r) CT_##T(__VA_ARGS__)
typedef float CT_FLOAT;
typedef int32_t CT_INT;
typedef unsigned CT_UINT;
typedef bool CT_BOOL;
typedef size_t CT_U64;
typedef zcm::vec2 CT_VEC2;
typedef zcm::vec3 CT_VEC3;
typedef zcm::vec4 CT_VEC4;
typedef zcm::ivec2 CT_IVEC2;
typedef zcm::ivec3 CT_IVEC3;
typedef zcm::ivec4 CT_IVEC4;
typedef zcm::bvec2 CT_BVEC2;
typedef zcm::bvec3 CT_BVEC3;
typedef zcm::bvec4 CT_BVEC4;
typedef zcm::mat2 CT_MAT2;
typedef zcm::mat3 CT_MAT3;
typedef zcm::mat4 CT_MAT4;
typedef zcm::quat CT_QUAT;
namespace {
void o0(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::log2(*(const float*)a[0])); }
void o1(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::log2(*(const zcm::vec2*)a[0])); }
void o2(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::log2(*(const zcm::vec3*)a[0])); }
void o3(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::log2(*(const zcm::vec4*)a[0])); }
void o4(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::log2(*(const zcm::quat*)a[0])); }
void o5(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::pow(*(const float*)a[0], *(const float*)a[1])); }
void o6(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::pow(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o7(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::pow(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o8(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::pow(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o9(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::pow(*(const zcm::quat*)a[0], *(const float*)a[1])); }
void o10(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::sqrt(*(const float*)a[0])); }
void o11(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::sqrt(*(const zcm::vec2*)a[0])); }
void o12(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::sqrt(*(const zcm::vec3*)a[0])); }
void o13(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::sqrt(*(const zcm::vec4*)a[0])); }
void o14(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::sqrt(*(const zcm::quat*)a[0])); }
void o15(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::cbrt(*(const float*)a[0])); }
void o16(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::cbrt(*(const zcm::vec2*)a[0])); }
void o17(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::cbrt(*(const zcm::vec3*)a[0])); }
void o18(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::cbrt(*(const zcm::vec4*)a[0])); }
void o19(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::cbrt(*(const zcm::quat*)a[0])); }
void o20(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::dot(*(const float*)a[0], *(const float*)a[1])); }
void o21(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::dot(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o22(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::dot(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o23(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::dot(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o24(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::dot(*(const zcm::quat*)a[0], *(const zcm::quat*)a[1])); }
void o25(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::distance(*(const float*)a[0], *(const float*)a[1])); }
void o26(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::distance(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o27(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::distance(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o28(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::distance(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o29(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::distance2(*(const float*)a[0], *(const float*)a[1])); }
void o30(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::distance2(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o31(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::distance2(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o32(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::distance2(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o33(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::length(*(const float*)a[0])); }
void o34(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::length(*(const zcm::vec2*)a[0])); }
void o35(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::length(*(const zcm::vec3*)a[0])); }
void o36(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::length(*(const zcm::vec4*)a[0])); }
void o37(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::length(*(const zcm::quat*)a[0])); }
void o38(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::length2(*(const float*)a[0])); }
void o39(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::length2(*(const zcm::vec2*)a[0])); }
void o40(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::length2(*(const zcm::vec3*)a[0])); }
void o41(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::length2(*(const zcm::vec4*)a[0])); }
void o42(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::length2(*(const zcm::quat*)a[0])); }
void o43(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::faceforward(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2])); }
void o44(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::faceforward(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1], *(const zcm::vec2*)a[2])); }
void o45(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::faceforward(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1], *(const zcm::vec3*)a[2])); }
void o46(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::faceforward(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1], *(const zcm::vec4*)a[2])); }
void o47(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::cross(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o48(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::normalize(*(const zcm::vec2*)a[0])); }
void o49(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::normalize(*(const zcm::vec3*)a[0])); }
void o50(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::normalize(*(const zcm::vec4*)a[0])); }
void o51(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::normalize(*(const zcm::quat*)a[0])); }
void o52(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::reflect(*(const float*)a[0], *(const float*)a[1])); }
void o53(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::reflect(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o54(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::reflect(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o55(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::reflect(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o56(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::refract(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2])); }
void o57(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::refract(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1], *(const float*)a[2])); }
void o58(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::refract(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1], *(const float*)a[2])); }
void o59(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::refract(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1], *(const float*)a[2])); }
void o60(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::orthogonal(*(const zcm::vec3*)a[0])); }
void o61(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::orthogonal_branchless(*(const zcm::vec3*)a[0])); }
void o62(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::encode_octahedral(*(const zcm::vec3*)a[0])); }
void o63(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::decode_octahedral(*(const zcm::vec2*)a[0])); }
void o64(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4()); }
void o65(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4(*(const float*)a[0])); }
void o66(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4(*(const int32_t*)a[0])); }
void o67(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3])); }
void o68(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4(*(const zcm::vec3*)a[0], *(const float*)a[1])); }
void o69(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4(*(const float*)a[0], *(const zcm::vec3*)a[1])); }
void o70(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o71(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4(*(const zcm::vec2*)a[0], *(const float*)a[1], *(const float*)a[2])); }
void o72(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4(*(const float*)a[0], *(const zcm::vec2*)a[1], *(const float*)a[2])); }
void o73(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4(*(const float*)a[0], *(const float*)a[1], *(const zcm::vec2*)a[2])); }
void o74(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec4*)a[0])[*(const unsigned*)a[1]]); }
void o75(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0])[*(const unsigned*)a[1]] = *(const float*)a[2]; }
void o76(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(const zcm::vec4*)a[0])[*(const unsigned*)a[1]]); }
void o77(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]) += *(const zcm::vec4*)a[1]; }
void o78(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]) -= *(const zcm::vec4*)a[1]; }
void o79(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]) *= *(const zcm::vec4*)a[1]; }
void o80(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]) /= *(const zcm::vec4*)a[1]; }
void o81(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]) += *(const float*)a[1]; }
void o82(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]) -= *(const float*)a[1]; }
void o83(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]) *= *(const float*)a[1]; }
void o84(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec4*)a[0]) /= *(const float*)a[1]; }
void o85(void* const* a, void* r) { (void)a; (void)r; R(VEC4, ++(*(zcm::vec4*)a[0])); }
void o86(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(zcm::vec4*)a[0])++); }
void o87(void* const* a, void* r) { (void)a; (void)r; R(VEC4, --(*(zcm::vec4*)a[0])); }
void o88(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(zcm::vec4*)a[0])--); }
void o89(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).xx)); }
void o90(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).yx)); }
void o91(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).zx)); }
void o92(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).wx)); }
void o93(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).xy)); }
void o94(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).yy)); }
void o95(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).zy)); }
void o96(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).wy)); }
void o97(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).xz)); }
void o98(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).yz)); }
void o99(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).zz)); }
void o100(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).wz)); }
void o101(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).xw)); }
void o102(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).yw)); }
void o103(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).zw)); }
void o104(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec4*)a[0]).ww)); }
void o105(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xxx)); }
void o106(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).yxx)); }
void o107(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zxx)); }
void o108(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wxx)); }
void o109(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xyx)); }
void o110(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).yyx)); }
void o111(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zyx)); }
void o112(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wyx)); }
void o113(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xzx)); }
void o114(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).yzx)); }
void o115(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zzx)); }
void o116(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wzx)); }
void o117(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xwx)); }
void o118(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).ywx)); }
void o119(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zwx)); }
void o120(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wwx)); }
void o121(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xxy)); }
void o122(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).yxy)); }
void o123(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zxy)); }
void o124(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wxy)); }
void o125(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xyy)); }
void o126(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).yyy)); }
void o127(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zyy)); }
void o128(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wyy)); }
void o129(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xzy)); }
void o130(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).yzy)); }
void o131(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zzy)); }
void o132(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wzy)); }
void o133(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xwy)); }
void o134(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).ywy)); }
void o135(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zwy)); }
void o136(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wwy)); }
void o137(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xxz)); }
void o138(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).yxz)); }
void o139(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zxz)); }
void o140(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wxz)); }
void o141(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xyz)); }
void o142(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).yyz)); }
void o143(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zyz)); }
void o144(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wyz)); }
void o145(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xzz)); }
void o146(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).yzz)); }
void o147(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zzz)); }
void o148(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wzz)); }
void o149(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xwz)); }
void o150(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).ywz)); }
void o151(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zwz)); }
void o152(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wwz)); }
void o153(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xxw)); }
void o154(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).yxw)); }
void o155(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zxw)); }
void o156(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wxw)); }
void o157(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xyw)); }
void o158(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).yyw)); }
void o159(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zyw)); }
void o160(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wyw)); }
void o161(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xzw)); }
void o162(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).yzw)); }
void o163(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zzw)); }
void o164(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).wzw)); }
void o165(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).xww)); }
void o166(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).yww)); }
void o167(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).zww)); }
void o168(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::vec3((*(const zcm::vec4*)a[0]).www)); }
void o169(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxxx)); }
void o170(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxxx)); }
void o171(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxxx)); }
void o172(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxxx)); }
void o173(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xyxx)); }
void o174(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yyxx)); }
void o175(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zyxx)); }
void o176(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wyxx)); }
void o177(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzxx)); }
void o178(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzxx)); }
void o179(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzxx)); }
void o180(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzxx)); }
void o181(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwxx)); }
void o182(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywxx)); }
void o183(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwxx)); }
}
extern const OpDesc zcm_ops_02[] = {
  {"log2(float)", o0, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"log2(vec2)", o1, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"log2(vec3)", o2, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"log2(vec4)", o3, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"log2(quat)", o4, T_QUAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"pow(float,float)", o5, T_FLOAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"pow(vec2,vec2)", o6, T_VEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"pow(vec3,vec3)", o7, T_VEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"pow(vec4,vec4)", o8, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"pow(quat,float)", o9, T_QUAT, 2, {{T_QUAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"sqrt(float)", o10, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"sqrt(vec2)", o11, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"sqrt(vec3)", o12, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"sqrt(vec4)", o13, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"sqrt(quat)", o14, T_QUAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"cbrt(float)", o15, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"cbrt(vec2)", o16, T_VEC2, 1, {{T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"cbrt(vec3)", o17, T_VEC3, 1, {{T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"cbrt(vec4)", o18, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"cbrt(quat)", o19, T_QUAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"dot(float,float)", o20, T_FLOAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"dot(vec2,vec2)", o21, T_FLOAT, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"dot(vec3,vec3)", o22, T_FLOAT, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"dot(vec4,vec4)", o23, T_FLOAT, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"dot(quat,quat)", o24, T_FLOAT, 2, {{T_QUAT, 0, D_ANY, 0}, {T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"distance(float,float)", o25, T_FLOAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"distance(vec2,vec2)", o26, T_FLOAT, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"distance(vec3,vec3)", o27, T_FLOAT, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"distance(vec4,vec4)", o28, T_FLOAT, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"distance2(float,float)", o29, T_FLOAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"distance2(vec2,vec2)", o30, T_FLOAT, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"distance2(vec3,vec3)", o31, T_FLOAT, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"distance2(vec4,vec4)", o32, T_FLOAT, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"length(float)", o33, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"length(vec2)", o34, T_FLOAT, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"length(vec3)", o35, T_FLOAT, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"length(vec4)", o36, T_FLOAT, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"length(quat)", o37, T_FLOAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"length2(float)", o38, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"length2(vec2)", o39, T_FLOAT, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"length2(vec3)", o40, T_FLOAT, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"length2(vec4)", o41, T_FLOAT, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"length2(quat)", o42, T_FLOAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"faceforward(float,float,float)", o43, T_FLOAT, 3, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"faceforward(vec2,vec2,vec2)", o44, T_VEC2, 3, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"faceforward(vec3,vec3,vec3)", o45, T_VEC3, 3, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"faceforward(vec4,vec4,vec4)", o46, T_VEC4, 3, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"cross(vec3,vec3)", o47, T_VEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"normalize(vec2)", o48, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"normalize(vec3)", o49, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"normalize(vec4)", o50, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"normalize(quat)", o51, T_QUAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"reflect(float,float)", o52, T_FLOAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"reflect(vec2,vec2)", o53, T_VEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"reflect(vec3,vec3)", o54, T_VEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"reflect(vec4,vec4)", o55, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"refract(float,float,float)", o56, T_FLOAT, 3, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"refract(vec2,vec2,float)", o57, T_VEC2, 3, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"refract(vec3,vec3,float)", o58, T_VEC3, 3, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"refract(vec4,vec4,float)", o59, T_VEC4, 3, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"orthogonal(vec3)", o60, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"orthogonal_branchless(vec3)", o61, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"encode_octahedral(vec3)", o62, T_VEC2, 1, {{T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"decode_octahedral(vec2)", o63, T_VEC3, 1, {{T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"vec4::vec4()", o64, T_VEC4, 0, {}, -1, 0},
  {"vec4::vec4(float)", o65, T_VEC4, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec4::vec4(int)", o66, T_VEC4, 1, {{T_INT, 0, D_ANY, 0}}, -1, 0},
  {"vec4::vec4(float,float,float,float)", o67, T_VEC4, 4, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec4::vec4(vec3,float)", o68, T_VEC4, 2, {{T_VEC3, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec4::vec4(float,vec3)", o69, T_VEC4, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"vec4::vec4(vec2,vec2)", o70, T_VEC4, 2, {{T_VEC2, 0, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"vec4::vec4(vec2,float,float)", o71, T_VEC4, 3, {{T_VEC2, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec4::vec4(float,vec2,float)", o72, T_VEC4, 3, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec4::vec4(float,float,vec2)", o73, T_VEC4, 3, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"vec4::operator[] read", o74, T_FLOAT, 2, {{T_VEC4, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}}, -1, 0},
  {"vec4::operator[] write", o75, T_VOID, 3, {{T_VEC4, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"const vec4::operator[]", o76, T_FLOAT, 2, {{T_VEC4, 1, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}}, -1, 0},
  {"vec4::operator+=(vec4)", o77, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"vec4::operator-=(vec4)", o78, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"vec4::operator*=(vec4)", o79, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"vec4::operator/=(vec4)", o80, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"vec4::operator+=(float)", o81, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec4::operator-=(float)", o82, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec4::operator*=(float)", o83, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec4::operator/=(float)", o84, T_VOID, 2, {{T_VEC4, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec4::operator++()", o85, T_VEC4, 1, {{T_VEC4, 2, D_ANY, 0}}, -1, 0},
  {"vec4::operator++(int)", o86, T_VEC4, 1, {{T_VEC4, 2, D_ANY, 0}}, -1, 0},
  {"vec4::operator--()", o87, T_VEC4, 1, {{T_VEC4, 2, D_ANY, 0}}, -1, 0},
  {"vec4::operator--(int)", o88, T_VEC4, 1, {{T_VEC4, 2, D_ANY, 0}}, -1, 0},
  {"vec4.xx", o89, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yx", o90, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zx", o91, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wx", o92, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xy", o93, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yy", o94, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zy", o95, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wy", o96, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xz", o97, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yz", o98, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zz", o99, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wz", o100, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xw", o101, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yw", o102, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zw", o103, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ww", o104, T_VEC2, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxx", o105, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxx", o106, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxx", o107, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxx", o108, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyx", o109, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyx", o110, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyx", o111, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyx", o112, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzx", o113, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzx", o114, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzx", o115, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzx", o116, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwx", o117, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywx", o118, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwx", o119, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwx", o120, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxy", o121, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxy", o122, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxy", o123, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxy", o124, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyy", o125, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyy", o126, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyy", o127, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyy", o128, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzy", o129, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzy", o130, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzy", o131, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzy", o132, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwy", o133, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywy", o134, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwy", o135, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwy", o136, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxz", o137, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxz", o138, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxz", o139, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxz", o140, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyz", o141, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyz", o142, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyz", o143, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyz", o144, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzz", o145, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzz", o146, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzz", o147, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzz", o148, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwz", o149, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywz", o150, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwz", o151, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwz", o152, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxw", o153, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxw", o154, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxw", o155, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxw", o156, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyw", o157, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyw", o158, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyw", o159, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyw", o160, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzw", o161, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzw", o162, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzw", o163, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzw", o164, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xww", o165, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yww", o166, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zww", o167, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.www", o168, T_VEC3, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxxx", o169, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxxx", o170, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxxx", o171, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxxx", o172, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyxx", o173, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyxx", o174, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyxx", o175, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyxx", o176, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzxx", o177, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzxx", o178, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzxx", o179, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzxx", o180, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwxx", o181, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywxx", o182, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwxx", o183, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
};
extern const unsigned zcm_nops_02 = 184;
