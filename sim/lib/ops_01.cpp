// generated by tools/genops.py from the public headers; do not edit
#include <stddef.h>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/fwd.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

#include <new>
#include <functional>
#include "ops.hpp"
#define R(T, ...) new (r) CT_##T(__VA_ARGS__)
typedef float CT_FLOAT;
typedef int32_t CT_INT;
typedef unsigned CT_UINT;
typedef bool CT_BOOL;
typedef size_t CT_U64;
typedef zcm::vec2 CT_VEC2;
typedef zcm::vec3 CT_VEC3;
typedef zcm::vec4 CT_VEC4;
typedef zcm::ivec2 CT_IVEC2;
typedef zcm::ivec3 CT_IVEC3;
typedef zcm::ivec4 CT_IVEC4;
typedef zcm::bvec2 CT_BVEC2;
typedef zcm::bvec3 CT_BVEC3;
typedef zcm::bvec4 CT_BVEC4;
typedef zcm::mat2 CT_MAT2;
typedef zcm::mat3 CT_MAT3;
typedef zcm::mat4 CT_MAT4;
typedef zcm::quat CT_QUAT;
namespace {
void o0(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::fma(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1], *(const zcm::vec4*)a[2])); }
void o1(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::fract(*(const float*)a[0])); }
void o2(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::fract(*(const zcm::vec2*)a[0])); }
void o3(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::fract(*(const zcm::vec3*)a[0])); }
void o4(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::fract(*(const zcm::vec4*)a[0])); }
void o5(void* const* a, void* r) { (void)a; (void)r; R(BOOL, zcm::isinf(*(const float*)a[0])); }
void o6(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::isinf(*(const zcm::vec2*)a[0])); }
void o7(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::isinf(*(const zcm::vec3*)a[0])); }
void o8(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::isinf(*(const zcm::vec4*)a[0])); }
void o9(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::isinf(*(const zcm::quat*)a[0])); }
void o10(void* const* a, void* r) { (void)a; (void)r; R(BOOL, zcm::isnan(*(const float*)a[0])); }
void o11(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::isnan(*(const zcm::vec2*)a[0])); }
void o12(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::isnan(*(const zcm::vec3*)a[0])); }
void o13(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::isnan(*(const zcm::vec4*)a[0])); }
void o14(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::isnan(*(const zcm::quat*)a[0])); }
void o15(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::max(*(const float*)a[0], *(const float*)a[1])); }
void o16(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::max(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o17(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::max(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o18(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::max(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o19(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::max(*(const int32_t*)a[0], *(const int32_t*)a[1])); }
void o20(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::max(*(const zcm::ivec2*)a[0], *(const zcm::ivec2*)a[1])); }
void o21(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::max(*(const zcm::ivec3*)a[0], *(const zcm::ivec3*)a[1])); }
void o22(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::max(*(const zcm::ivec4*)a[0], *(const zcm::ivec4*)a[1])); }
void o23(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::min(*(const float*)a[0], *(const float*)a[1])); }
void o24(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::min(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o25(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::min(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o26(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::min(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o27(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::min(*(const int32_t*)a[0], *(const int32_t*)a[1])); }
void o28(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::min(*(const zcm::ivec2*)a[0], *(const zcm::ivec2*)a[1])); }
void o29(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::min(*(const zcm::ivec3*)a[0], *(const zcm::ivec3*)a[1])); }
void o30(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::min(*(const zcm::ivec4*)a[0], *(const zcm::ivec4*)a[1])); }
void o31(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::mod(*(const float*)a[0], *(const float*)a[1])); }
void o32(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::mod(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o33(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::mod(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o34(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::mod(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o35(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::mod(*(const zcm::vec2*)a[0], *(const float*)a[1])); }
void o36(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::mod(*(const zcm::vec3*)a[0], *(const float*)a[1])); }
void o37(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::mod(*(const zcm::vec4*)a[0], *(const float*)a[1])); }
void o38(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::round(*(const float*)a[0])); }
void o39(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::round(*(const zcm::vec2*)a[0])); }
void o40(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::round(*(const zcm::vec3*)a[0])); }
void o41(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::round(*(const zcm::vec4*)a[0])); }
void o42(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::roundEven(*(const float*)a[0])); }
void o43(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::roundEven(*(const zcm::vec2*)a[0])); }
void o44(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::roundEven(*(const zcm::vec3*)a[0])); }
void o45(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::roundEven(*(const zcm::vec4*)a[0])); }
void o46(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::sign(*(const float*)a[0])); }
void o47(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::sign(*(const zcm::vec2*)a[0])); }
void o48(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::sign(*(const zcm::vec3*)a[0])); }
void o49(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::sign(*(const zcm::vec4*)a[0])); }
void o50(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::sign(*(const int32_t*)a[0])); }
void o51(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::sign(*(const zcm::ivec2*)a[0])); }
void o52(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::sign(*(const zcm::ivec3*)a[0])); }
void o53(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::sign(*(const zcm::ivec4*)a[0])); }
void o54(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::signNotZero(*(const float*)a[0])); }
void o55(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::signNotZero(*(const zcm::vec2*)a[0])); }
void o56(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::signNotZero(*(const zcm::vec3*)a[0])); }
void o57(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::signNotZero(*(const zcm::vec4*)a[0])); }
void o58(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::signNotZero(*(const int32_t*)a[0])); }
void o59(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::signNotZero(*(const zcm::ivec2*)a[0])); }
void o60(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::signNotZero(*(const zcm::ivec3*)a[0])); }
void o61(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::signNotZero(*(const zcm::ivec4*)a[0])); }
void o62(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::mix(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2])); }
void o63(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::mix(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1], *(const float*)a[2])); }
void o64(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::mix(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1], *(const float*)a[2])); }
void o65(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::mix(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1], *(const float*)a[2])); }
void o66(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::mix(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1], *(const zcm::vec2*)a[2])); }
void o67(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::mix(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1], *(const zcm::vec3*)a[2])); }
void o68(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::mix(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1], *(const zcm::vec4*)a[2])); }
void o69(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::mix(*(const float*)a[0], *(const float*)a[1], *(const bool*)a[2])); }
void o70(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::mix(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1], *(const zcm::bvec2*)a[2])); }
void o71(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::mix(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1], *(const zcm::bvec3*)a[2])); }
void o72(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::mix(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1], *(const zcm::bvec4*)a[2])); }
void o73(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::step(*(const float*)a[0], *(const float*)a[1])); }
void o74(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::step(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o75(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::step(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o76(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::step(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o77(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::smoothstep(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2])); }
void o78(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::smoothstep(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1], *(const zcm::vec2*)a[2])); }
void o79(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::smoothstep(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1], *(const zcm::vec3*)a[2])); }
void o80(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::smoothstep(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1], *(const zcm::vec4*)a[2])); }
void o81(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::trunc(*(const float*)a[0])); }
void o82(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::trunc(*(const zcm::vec2*)a[0])); }
void o83(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::trunc(*(const zcm::vec3*)a[0])); }
void o84(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::trunc(*(const zcm::vec4*)a[0])); }
void o85(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::lessThan(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o86(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::lessThan(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o87(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::lessThan(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o88(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::lessThanEqual(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o89(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::lessThanEqual(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o90(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::lessThanEqual(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o91(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::greaterThan(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o92(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::greaterThan(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o93(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::greaterThan(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o94(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::greaterThanEqual(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o95(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::greaterThanEqual(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o96(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::greaterThanEqual(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o97(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::equal(*(const zcm::bvec2*)a[0], *(const zcm::bvec2*)a[1])); }
void o98(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::equal(*(const zcm::bvec3*)a[0], *(const zcm::bvec3*)a[1])); }
void o99(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::equal(*(const zcm::bvec4*)a[0], *(const zcm::bvec4*)a[1])); }
void o100(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::equal(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o101(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::equal(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o102(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::equal(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o103(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::equal(*(const zcm::quat*)a[0], *(const zcm::quat*)a[1])); }
void o104(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::notEqual(*(const zcm::bvec2*)a[0], *(const zcm::bvec2*)a[1])); }
void o105(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::notEqual(*(const zcm::bvec3*)a[0], *(const zcm::bvec3*)a[1])); }
void o106(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::notEqual(*(const zcm::bvec4*)a[0], *(const zcm::bvec4*)a[1])); }
void o107(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::notEqual(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o108(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::notEqual(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o109(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::notEqual(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o110(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::notEqual(*(const zcm::quat*)a[0], *(const zcm::quat*)a[1])); }
void o111(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::compAdd(*(const zcm::vec2*)a[0])); }
void o112(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::compAdd(*(const zcm::vec3*)a[0])); }
void o113(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::compAdd(*(const zcm::vec4*)a[0])); }
void o114(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::compAdd(*(const zcm::ivec2*)a[0])); }
void o115(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::compAdd(*(const zcm::ivec3*)a[0])); }
void o116(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::compAdd(*(const zcm::ivec4*)a[0])); }
void o117(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::compMul(*(const zcm::vec2*)a[0])); }
void o118(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::compMul(*(const zcm::vec3*)a[0])); }
void o119(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::compMul(*(const zcm::vec4*)a[0])); }
void o120(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::compMul(*(const zcm::ivec2*)a[0])); }
void o121(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::compMul(*(const zcm::ivec3*)a[0])); }
void o122(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::compMul(*(const zcm::ivec4*)a[0])); }
void o123(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::compMin(*(const zcm::vec2*)a[0])); }
void o124(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::compMin(*(const zcm::vec3*)a[0])); }
void o125(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::compMin(*(const zcm::vec4*)a[0])); }
void o126(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::compMin(*(const zcm::ivec2*)a[0])); }
void o127(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::compMin(*(const zcm::ivec3*)a[0])); }
void o128(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::compMin(*(const zcm::ivec4*)a[0])); }
void o129(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::compMax(*(const zcm::vec2*)a[0])); }
void o130(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::compMax(*(const zcm::vec3*)a[0])); }
void o131(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::compMax(*(const zcm::vec4*)a[0])); }
void o132(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::compMax(*(const zcm::ivec2*)a[0])); }
void o133(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::compMax(*(const zcm::ivec3*)a[0])); }
void o134(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::compMax(*(const zcm::ivec4*)a[0])); }
void o135(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::epsilon()); }
void o136(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::zero()); }
void o137(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::one()); }
void o138(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::pi()); }
void o139(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::two_pi()); }
void o140(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::root_pi()); }
void o141(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::half_pi()); }
void o142(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::three_over_two_pi()); }
void o143(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::quarter_pi()); }
void o144(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::one_over_pi()); }
void o145(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::one_over_two_pi()); }
void o146(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::two_over_pi()); }
void o147(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::four_over_pi()); }
void o148(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::two_over_root_pi()); }
void o149(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::one_over_root_two()); }
void o150(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::root_half_pi()); }
void o151(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::root_two_pi()); }
void o152(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::root_ln_four()); }
void o153(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::e()); }
void o154(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::euler()); }
void o155(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::root_two()); }
void o156(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::root_three()); }
void o157(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::root_five()); }
void o158(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::ln_two()); }
void o159(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::ln_ten()); }
void o160(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::ln_ln_two()); }
void o161(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::third()); }
void o162(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::two_thirds()); }
void o163(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::golden_ratio()); }
void o164(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::exp(*(const float*)a[0])); }
void o165(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::exp(*(const zcm::vec2*)a[0])); }
void o166(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::exp(*(const zcm::vec3*)a[0])); }
void o167(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::exp(*(const zcm::vec4*)a[0])); }
void o168(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::exp(*(const zcm::quat*)a[0])); }
void o169(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::exp2(*(const float*)a[0])); }
void o170(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::exp2(*(const zcm::vec2*)a[0])); }
void o171(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::exp2(*(const zcm::vec3*)a[0])); }
void o172(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::exp2(*(const zcm::vec4*)a[0])); }
void o173(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::exp2(*(const zcm::quat*)a[0])); }
void o174(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::inversesqrt(*(const float*)a[0])); }
void o175(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::inversesqrt(*(const zcm::vec2*)a[0])); }
void o176(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::inversesqrt(*(const zcm::vec3*)a[0])); }
void o177(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::inversesqrt(*(const zcm::vec4*)a[0])); }
void o178(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::inversesqrt(*(const zcm::quat*)a[0])); }
void o179(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::log(*(const float*)a[0])); }
void o180(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::log(*(const zcm::vec2*)a[0])); }
void o181(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::log(*(const zcm::vec3*)a[0])); }
void o182(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::log(*(const zcm::vec4*)a[0])); }
void o183(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::log(*(const zcm::quat*)a[0])); }
}
extern const OpDesc zcm_ops_01[] = {
  {"fma(vec4,vec4,vec4)", o0, T_VEC4, 3, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"fract(float)", o1, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"fract(vec2)", o2, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"fract(vec3)", o3, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"fract(vec4)", o4, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"isinf(float)", o5, T_BOOL, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"isinf(vec2)", o6, T_BVEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"isinf(vec3)", o7, T_BVEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"isinf(vec4)", o8, T_BVEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"isinf(quat)", o9, T_BVEC4, 1, {{T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"isnan(float)", o10, T_BOOL, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"isnan(vec2)", o11, T_BVEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"isnan(vec3)", o12, T_BVEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"isnan(vec4)", o13, T_BVEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"isnan(quat)", o14, T_BVEC4, 1, {{T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"max(float,float)", o15, T_FLOAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"max(vec2,vec2)", o16, T_VEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"max(vec3,vec3)", o17, T_VEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"max(vec4,vec4)", o18, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"max(int,int)", o19, T_INT, 2, {{T_INT, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"max(ivec2,ivec2)", o20, T_IVEC2, 2, {{T_IVEC2, 1, D_ANY, 0}, {T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"max(ivec3,ivec3)", o21, T_IVEC3, 2, {{T_IVEC3, 1, D_ANY, 0}, {T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"max(ivec4,ivec4)", o22, T_IVEC4, 2, {{T_IVEC4, 1, D_ANY, 0}, {T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"min(float,float)", o23, T_FLOAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"min(vec2,vec2)", o24, T_VEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"min(vec3,vec3)", o25, T_VEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"min(vec4,vec4)", o26, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"min(int,int)", o27, T_INT, 2, {{T_INT, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"min(ivec2,ivec2)", o28, T_IVEC2, 2, {{T_IVEC2, 1, D_ANY, 0}, {T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"min(ivec3,ivec3)", o29, T_IVEC3, 2, {{T_IVEC3, 1, D_ANY, 0}, {T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"min(ivec4,ivec4)", o30, T_IVEC4, 2, {{T_IVEC4, 1, D_ANY, 0}, {T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"mod(float,float)", o31, T_FLOAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"mod(vec2,vec2)", o32, T_VEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"mod(vec3,vec3)", o33, T_VEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"mod(vec4,vec4)", o34, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"mod(vec2,float)", o35, T_VEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"mod(vec3,float)", o36, T_VEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"mod(vec4,float)", o37, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"round(float)", o38, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"round(vec2)", o39, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"round(vec3)", o40, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"round(vec4)", o41, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"roundEven(float)", o42, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"roundEven(vec2)", o43, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"roundEven(vec3)", o44, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"roundEven(vec4)", o45, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"sign(float)", o46, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"sign(vec2)", o47, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"sign(vec3)", o48, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"sign(vec4)", o49, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"sign(int)", o50, T_INT, 1, {{T_INT, 0, D_ANY, 0}}, -1, 0},
  {"sign(ivec2)", o51, T_IVEC2, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"sign(ivec3)", o52, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"sign(ivec4)", o53, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"signNotZero(float)", o54, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"signNotZero(vec2)", o55, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"signNotZero(vec3)", o56, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"signNotZero(vec4)", o57, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"signNotZero(int)", o58, T_INT, 1, {{T_INT, 0, D_ANY, 0}}, -1, 0},
  {"signNotZero(ivec2)", o59, T_IVEC2, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"signNotZero(ivec3)", o60, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"signNotZero(ivec4)", o61, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"mix(float,float,float)", o62, T_FLOAT, 3, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"mix(vec2,vec2,float)", o63, T_VEC2, 3, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"mix(vec3,vec3,float)", o64, T_VEC3, 3, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"mix(vec4,vec4,float)", o65, T_VEC4, 3, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"mix(vec2,vec2,vec2)", o66, T_VEC2, 3, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"mix(vec3,vec3,vec3)", o67, T_VEC3, 3, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"mix(vec4,vec4,vec4)", o68, T_VEC4, 3, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"mix(float,float,bool)", o69, T_FLOAT, 3, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"mix(vec2,vec2,bvec2)", o70, T_VEC2, 3, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}, {T_BVEC2, 1, D_ANY, 0}}, -1, 0},
  {"mix(vec3,vec3,bvec3)", o71, T_VEC3, 3, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}, {T_BVEC3, 1, D_ANY, 0}}, -1, 0},
  {"mix(vec4,vec4,bvec4)", o72, T_VEC4, 3, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}, {T_BVEC4, 1, D_ANY, 0}}, -1, 0},
  {"step(float,float)", o73, T_FLOAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"step(vec2,vec2)", o74, T_VEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"step(vec3,vec3)", o75, T_VEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"step(vec4,vec4)", o76, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"smoothstep(float,float,float)", o77, T_FLOAT, 3, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"smoothstep(vec2,vec2,vec2)", o78, T_VEC2, 3, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"smoothstep(vec3,vec3,vec3)", o79, T_VEC3, 3, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"smoothstep(vec4,vec4,vec4)", o80, T_VEC4, 3, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"trunc(float)", o81, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"trunc(vec2)", o82, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"trunc(vec3)", o83, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"trunc(vec4)", o84, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"lessThan(vec2,vec2)", o85, T_BVEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"lessThan(vec3,vec3)", o86, T_BVEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"lessThan(vec4,vec4)", o87, T_BVEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"lessThanEqual(vec2,vec2)", o88, T_BVEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"lessThanEqual(vec3,vec3)", o89, T_BVEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"lessThanEqual(vec4,vec4)", o90, T_BVEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"greaterThan(vec2,vec2)", o91, T_BVEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"greaterThan(vec3,vec3)", o92, T_BVEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"greaterThan(vec4,vec4)", o93, T_BVEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"greaterThanEqual(vec2,vec2)", o94, T_BVEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"greaterThanEqual(vec3,vec3)", o95, T_BVEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"greaterThanEqual(vec4,vec4)", o96, T_BVEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"equal(bvec2,bvec2)", o97, T_BVEC2, 2, {{T_BVEC2, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"equal(bvec3,bvec3)", o98, T_BVEC3, 2, {{T_BVEC3, 0, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"equal(bvec4,bvec4)", o99, T_BVEC4, 2, {{T_BVEC4, 0, D_ANY, 0}, {T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"equal(vec2,vec2)", o100, T_BVEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"equal(vec3,vec3)", o101, T_BVEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"equal(vec4,vec4)", o102, T_BVEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"equal(quat,quat)", o103, T_BVEC4, 2, {{T_QUAT, 1, D_ANY, 0}, {T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"notEqual(bvec2,bvec2)", o104, T_BVEC2, 2, {{T_BVEC2, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"notEqual(bvec3,bvec3)", o105, T_BVEC3, 2, {{T_BVEC3, 0, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"notEqual(bvec4,bvec4)", o106, T_BVEC4, 2, {{T_BVEC4, 0, D_ANY, 0}, {T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"notEqual(vec2,vec2)", o107, T_BVEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"notEqual(vec3,vec3)", o108, T_BVEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"notEqual(vec4,vec4)", o109, T_BVEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"notEqual(quat,quat)", o110, T_BVEC4, 2, {{T_QUAT, 1, D_ANY, 0}, {T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"compAdd(vec2)", o111, T_FLOAT, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"compAdd(vec3)", o112, T_FLOAT, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"compAdd(vec4)", o113, T_FLOAT, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"compAdd(ivec2)", o114, T_INT, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"compAdd(ivec3)", o115, T_INT, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"compAdd(ivec4)", o116, T_INT, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"compMul(vec2)", o117, T_FLOAT, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"compMul(vec3)", o118, T_FLOAT, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"compMul(vec4)", o119, T_FLOAT, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"compMul(ivec2)", o120, T_INT, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"compMul(ivec3)", o121, T_INT, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"compMul(ivec4)", o122, T_INT, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"compMin(vec2)", o123, T_FLOAT, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"compMin(vec3)", o124, T_FLOAT, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"compMin(vec4)", o125, T_FLOAT, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"compMin(ivec2)", o126, T_INT, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"compMin(ivec3)", o127, T_INT, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"compMin(ivec4)", o128, T_INT, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"compMax(vec2)", o129, T_FLOAT, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"compMax(vec3)", o130, T_FLOAT, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"compMax(vec4)", o131, T_FLOAT, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"compMax(ivec2)", o132, T_INT, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"compMax(ivec3)", o133, T_INT, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"compMax(ivec4)", o134, T_INT, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"epsilon()", o135, T_FLOAT, 0, {}, -1, 0},
  {"zero()", o136, T_FLOAT, 0, {}, -1, 0},
  {"one()", o137, T_FLOAT, 0, {}, -1, 0},
  {"pi()", o138, T_FLOAT, 0, {}, -1, 0},
  {"two_pi()", o139, T_FLOAT, 0, {}, -1, 0},
  {"root_pi()", o140, T_FLOAT, 0, {}, -1, 0},
  {"half_pi()", o141, T_FLOAT, 0, {}, -1, 0},
  {"three_over_two_pi()", o142, T_FLOAT, 0, {}, -1, 0},
  {"quarter_pi()", o143, T_FLOAT, 0, {}, -1, 0},
  {"one_over_pi()", o144, T_FLOAT, 0, {}, -1, 0},
  {"one_over_two_pi()", o145, T_FLOAT, 0, {}, -1, 0},
  {"two_over_pi()", o146, T_FLOAT, 0, {}, -1, 0},
  {"four_over_pi()", o147, T_FLOAT, 0, {}, -1, 0},
  {"two_over_root_pi()", o148, T_FLOAT, 0, {}, -1, 0},
  {"one_over_root_two()", o149, T_FLOAT, 0, {}, -1, 0},
  {"root_half_pi()", o150, T_FLOAT, 0, {}, -1, 0},
  {"root_two_pi()", o151, T_FLOAT, 0, {}, -1, 0},
  {"root_ln_four()", o152, T_FLOAT, 0, {}, -1, 0},
  {"e()", o153, T_FLOAT, 0, {}, -1, 0},
  {"euler()", o154, T_FLOAT, 0, {}, -1, 0},
  {"root_two()", o155, T_FLOAT, 0, {}, -1, 0},
  {"root_three()", o156, T_FLOAT, 0, {}, -1, 0},
  {"root_five()", o157, T_FLOAT, 0, {}, -1, 0},
  {"ln_two()", o158, T_FLOAT, 0, {}, -1, 0},
  {"ln_ten()", o159, T_FLOAT, 0, {}, -1, 0},
  {"ln_ln_two()", o160, T_FLOAT, 0, {}, -1, 0},
  {"third()", o161, T_FLOAT, 0, {}, -1, 0},
  {"two_thirds()", o162, T_FLOAT, 0, {}, -1, 0},
  {"golden_ratio()", o163, T_FLOAT, 0, {}, -1, 0},
  {"exp(float)", o164, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"exp(vec2)", o165, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"exp(vec3)", o166, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"exp(vec4)", o167, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"exp(quat)", o168, T_QUAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"exp2(float)", o169, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"exp2(vec2)", o170, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"exp2(vec3)", o171, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"exp2(vec4)", o172, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"exp2(quat)", o173, T_QUAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"inversesqrt(float)", o174, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"inversesqrt(vec2)", o175, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"inversesqrt(vec3)", o176, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"inversesqrt(vec4)", o177, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"inversesqrt(quat)", o178, T_QUAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"log(float)", o179, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"log(vec2)", o180, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"log(vec3)", o181, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"log(vec4)", o182, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"log(quat)", o183, T_QUAT, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
};
extern const unsigned zcm_nops_01 = 184;
