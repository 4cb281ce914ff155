// generated by tools/genops.py from the public headers; do not edit
#include <stddef.h>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/fwd.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

#include <new>
#include <functional>
#include "ops.hpp"
#define R(T, ...) new (r) CT_##T(__VA_ARGS__)
typedef float CT_FLOAT;
typedef int32_t CT_INT;
typedef unsigned CT_UINT;
typedef bool CT_BOOL;
typedef size_t CT_U64;
typedef zcm::vec2 CT_VEC2;
typedef zcm::vec3 CT_VEC3;
typedef zcm::vec4 CT_VEC4;
typedef zcm::ivec2 CT_IVEC2;
typedef zcm::ivec3 CT_IVEC3;
typedef zcm::ivec4 CT_IVEC4;
typedef zcm::bvec2 CT_BVEC2;
typedef zcm::bvec3 CT_BVEC3;
typedef zcm::bvec4 CT_BVEC4;
typedef zcm::mat2 CT_MAT2;
typedef zcm::mat3 CT_MAT3;
typedef zcm::mat4 CT_MAT4;
typedef zcm::quat CT_QUAT;
namespace {
void o0(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::cos(*(const float*)a[0])); }
void o1(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::cos(*(const zcm::vec2*)a[0])); }
void o2(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::cos(*(const zcm::vec3*)a[0])); }
void o3(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::cos(*(const zcm::vec4*)a[0])); }
void o4(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::sin(*(const float*)a[0])); }
void o5(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::sin(*(const zcm::vec2*)a[0])); }
void o6(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::sin(*(const zcm::vec3*)a[0])); }
void o7(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::sin(*(const zcm::vec4*)a[0])); }
void o8(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::acos(*(const float*)a[0])); }
void o9(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::acos(*(const zcm::vec2*)a[0])); }
void o10(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::acos(*(const zcm::vec3*)a[0])); }
void o11(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::acos(*(const zcm::vec4*)a[0])); }
void o12(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::acosh(*(const float*)a[0])); }
void o13(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::acosh(*(const zcm::vec2*)a[0])); }
void o14(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::acosh(*(const zcm::vec3*)a[0])); }
void o15(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::acosh(*(const zcm::vec4*)a[0])); }
void o16(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::asin(*(const float*)a[0])); }
void o17(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::asin(*(const zcm::vec2*)a[0])); }
void o18(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::asin(*(const zcm::vec3*)a[0])); }
void o19(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::asin(*(const zcm::vec4*)a[0])); }
void o20(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::asinh(*(const float*)a[0])); }
void o21(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::asinh(*(const zcm::vec2*)a[0])); }
void o22(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::asinh(*(const zcm::vec3*)a[0])); }
void o23(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::asinh(*(const zcm::vec4*)a[0])); }
void o24(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::atan(*(const float*)a[0], *(const float*)a[1])); }
void o25(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::atan(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o26(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::atan(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o27(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::atan(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1])); }
void o28(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::atan(*(const float*)a[0])); }
void o29(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::atan(*(const zcm::vec2*)a[0])); }
void o30(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::atan(*(const zcm::vec3*)a[0])); }
void o31(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::atan(*(const zcm::vec4*)a[0])); }
void o32(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::atanh(*(const float*)a[0])); }
void o33(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::atanh(*(const zcm::vec2*)a[0])); }
void o34(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::atanh(*(const zcm::vec3*)a[0])); }
void o35(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::atanh(*(const zcm::vec4*)a[0])); }
void o36(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::cosh(*(const float*)a[0])); }
void o37(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::cosh(*(const zcm::vec2*)a[0])); }
void o38(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::cosh(*(const zcm::vec3*)a[0])); }
void o39(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::cosh(*(const zcm::vec4*)a[0])); }
void o40(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::degrees(*(const float*)a[0])); }
void o41(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::degrees(*(const zcm::vec2*)a[0])); }
void o42(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::degrees(*(const zcm::vec3*)a[0])); }
void o43(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::degrees(*(const zcm::vec4*)a[0])); }
void o44(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::radians(*(const float*)a[0])); }
void o45(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::radians(*(const zcm::vec2*)a[0])); }
void o46(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::radians(*(const zcm::vec3*)a[0])); }
void o47(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::radians(*(const zcm::vec4*)a[0])); }
void o48(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::sinh(*(const float*)a[0])); }
void o49(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::sinh(*(const zcm::vec2*)a[0])); }
void o50(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::sinh(*(const zcm::vec3*)a[0])); }
void o51(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::sinh(*(const zcm::vec4*)a[0])); }
void o52(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::tan(*(const float*)a[0])); }
void o53(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::tan(*(const zcm::vec2*)a[0])); }
void o54(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::tan(*(const zcm::vec3*)a[0])); }
void o55(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::tan(*(const zcm::vec4*)a[0])); }
void o56(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::tanh(*(const float*)a[0])); }
void o57(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::tanh(*(const zcm::vec2*)a[0])); }
void o58(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::tanh(*(const zcm::vec3*)a[0])); }
void o59(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::tanh(*(const zcm::vec4*)a[0])); }
void o60(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::bvec2()); }
void o61(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::bvec2(*(const bool*)a[0])); }
void o62(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::bvec2(*(const bool*)a[0], *(const bool*)a[1])); }
void o63(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(zcm::bvec2*)a[0])[*(const unsigned*)a[1]]); }
void o64(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec2*)a[0])[*(const unsigned*)a[1]] = *(const bool*)a[2]; }
void o65(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::bvec2*)a[0])[*(const unsigned*)a[1]]); }
void o66(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec2*)a[0]) &= *(const bool*)a[1]; }
void o67(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec2*)a[0]) |= *(const bool*)a[1]; }
void o68(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec2*)a[0]) ^= *(const bool*)a[1]; }
void o69(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec2*)a[0]) &= *(const zcm::bvec2*)a[1]; }
void o70(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec2*)a[0]) |= *(const zcm::bvec2*)a[1]; }
void o71(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec2*)a[0]) ^= *(const zcm::bvec2*)a[1]; }
void o72(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, zcm::make_bvec2((const bool*)a[0])); }
void o73(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::bvec2*)a[0]) == (*(const zcm::bvec2*)a[1])); }
void o74(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::bvec2*)a[0]) != (*(const zcm::bvec2*)a[1])); }
void o75(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, !(*(const zcm::bvec2*)a[0])); }
void o76(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, (*(const zcm::bvec2*)a[0]) && (*(const zcm::bvec2*)a[1])); }
void o77(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, (*(const zcm::bvec2*)a[0]) || (*(const zcm::bvec2*)a[1])); }
void o78(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, (*(const zcm::bvec2*)a[0]) ^ (*(const zcm::bvec2*)a[1])); }
void o79(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, (*(const zcm::bvec2*)a[0]) && (*(const bool*)a[1])); }
void o80(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, (*(const zcm::bvec2*)a[0]) || (*(const bool*)a[1])); }
void o81(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, (*(const zcm::bvec2*)a[0]) ^ (*(const bool*)a[1])); }
void o82(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, (*(const bool*)a[0]) && (*(const zcm::bvec2*)a[1])); }
void o83(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, (*(const bool*)a[0]) || (*(const zcm::bvec2*)a[1])); }
void o84(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, (*(const bool*)a[0]) ^ (*(const zcm::bvec2*)a[1])); }
void o85(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::bvec3()); }
void o86(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::bvec3(*(const bool*)a[0])); }
void o87(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::bvec3(*(const bool*)a[0], *(const bool*)a[1], *(const bool*)a[2])); }
void o88(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::bvec3(*(const zcm::bvec2*)a[0], *(const bool*)a[1])); }
void o89(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::bvec3(*(const bool*)a[0], *(const zcm::bvec2*)a[1])); }
void o90(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(zcm::bvec3*)a[0])[*(const unsigned*)a[1]]); }
void o91(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0])[*(const unsigned*)a[1]] = *(const bool*)a[2]; }
void o92(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::bvec3*)a[0])[*(const unsigned*)a[1]]); }
void o93(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0]) &= *(const bool*)a[1]; }
void o94(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0]) |= *(const bool*)a[1]; }
void o95(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0]) ^= *(const bool*)a[1]; }
void o96(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0]) &= *(const zcm::bvec3*)a[1]; }
void o97(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0]) |= *(const zcm::bvec3*)a[1]; }
void o98(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0]) ^= *(const zcm::bvec3*)a[1]; }
void o99(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, zcm::make_bvec3((const bool*)a[0])); }
void o100(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::bvec3*)a[0]) == (*(const zcm::bvec3*)a[1])); }
void o101(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::bvec3*)a[0]) != (*(const zcm::bvec3*)a[1])); }
void o102(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, !(*(const zcm::bvec3*)a[0])); }
void o103(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, (*(const zcm::bvec3*)a[0]) && (*(const zcm::bvec3*)a[1])); }
void o104(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, (*(const zcm::bvec3*)a[0]) || (*(const zcm::bvec3*)a[1])); }
void o105(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, (*(const zcm::bvec3*)a[0]) ^ (*(const zcm::bvec3*)a[1])); }
void o106(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, (*(const zcm::bvec3*)a[0]) && (*(const bool*)a[1])); }
void o107(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, (*(const zcm::bvec3*)a[0]) || (*(const bool*)a[1])); }
void o108(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, (*(const zcm::bvec3*)a[0]) ^ (*(const bool*)a[1])); }
void o109(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, (*(const bool*)a[0]) && (*(const zcm::bvec3*)a[1])); }
void o110(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, (*(const bool*)a[0]) || (*(const zcm::bvec3*)a[1])); }
void o111(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, (*(const bool*)a[0]) ^ (*(const zcm::bvec3*)a[1])); }
void o112(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::bvec4()); }
void o113(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::bvec4(*(const bool*)a[0])); }
void o114(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::bvec4(*(const bool*)a[0], *(const bool*)a[1], *(const bool*)a[2], *(const bool*)a[3])); }
void o115(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::bvec4(*(const zcm::bvec3*)a[0], *(const bool*)a[1])); }
void o116(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::bvec4(*(const bool*)a[0], *(const zcm::bvec3*)a[1])); }
void o117(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::bvec4(*(const zcm::bvec2*)a[0], *(const zcm::bvec2*)a[1])); }
void o118(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::bvec4(*(const zcm::bvec2*)a[0], *(const bool*)a[1], *(const bool*)a[2])); }
void o119(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::bvec4(*(const bool*)a[0], *(const zcm::bvec2*)a[1], *(const bool*)a[2])); }
void o120(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::bvec4(*(const bool*)a[0], *(const bool*)a[1], *(const zcm::bvec2*)a[2])); }
void o121(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(zcm::bvec4*)a[0])[*(const unsigned*)a[1]]); }
void o122(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0])[*(const unsigned*)a[1]] = *(const bool*)a[2]; }
void o123(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::bvec4*)a[0])[*(const unsigned*)a[1]]); }
void o124(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0]) &= *(const bool*)a[1]; }
void o125(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0]) |= *(const bool*)a[1]; }
void o126(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0]) ^= *(const bool*)a[1]; }
void o127(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0]) &= *(const zcm::bvec4*)a[1]; }
void o128(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0]) |= *(const zcm::bvec4*)a[1]; }
void o129(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0]) ^= *(const zcm::bvec4*)a[1]; }
void o130(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, zcm::make_bvec4((const bool*)a[0])); }
void o131(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::bvec4*)a[0]) == (*(const zcm::bvec4*)a[1])); }
void o132(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::bvec4*)a[0]) != (*(const zcm::bvec4*)a[1])); }
void o133(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, !(*(const zcm::bvec4*)a[0])); }
void o134(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, (*(const zcm::bvec4*)a[0]) && (*(const zcm::bvec4*)a[1])); }
void o135(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, (*(const zcm::bvec4*)a[0]) || (*(const zcm::bvec4*)a[1])); }
void o136(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, (*(const zcm::bvec4*)a[0]) ^ (*(const zcm::bvec4*)a[1])); }
void o137(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, (*(const zcm::bvec4*)a[0]) && (*(const bool*)a[1])); }
void o138(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, (*(const zcm::bvec4*)a[0]) || (*(const bool*)a[1])); }
void o139(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, (*(const zcm::bvec4*)a[0]) ^ (*(const bool*)a[1])); }
void o140(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, (*(const bool*)a[0]) && (*(const zcm::bvec4*)a[1])); }
void o141(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, (*(const bool*)a[0]) || (*(const zcm::bvec4*)a[1])); }
void o142(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, (*(const bool*)a[0]) ^ (*(const zcm::bvec4*)a[1])); }
void o143(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::convertLinearToSRGB(*(const zcm::vec3*)a[0])); }
void o144(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::convertLinearToSRGB(*(const zcm::vec4*)a[0])); }
void o145(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::convertLinearToSRGB(*(const zcm::vec3*)a[0], *(const float*)a[1])); }
void o146(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::convertLinearToSRGB(*(const zcm::vec4*)a[0], *(const float*)a[1])); }
void o147(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::convertSRGBToLinear(*(const zcm::vec3*)a[0])); }
void o148(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::convertSRGBToLinear(*(const zcm::vec4*)a[0])); }
void o149(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::convertSRGBToLinear(*(const zcm::vec3*)a[0], *(const float*)a[1])); }
void o150(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::convertSRGBToLinear(*(const zcm::vec4*)a[0], *(const float*)a[1])); }
void o151(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::abs(*(const float*)a[0])); }
void o152(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::abs(*(const zcm::vec2*)a[0])); }
void o153(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::abs(*(const zcm::vec3*)a[0])); }
void o154(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::abs(*(const zcm::vec4*)a[0])); }
void o155(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::abs(*(const int32_t*)a[0])); }
void o156(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::abs(*(const zcm::ivec2*)a[0])); }
void o157(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::abs(*(const zcm::ivec3*)a[0])); }
void o158(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::abs(*(const zcm::ivec4*)a[0])); }
void o159(void* const* a, void* r) { (void)a; (void)r; R(BOOL, zcm::all(*(const zcm::bvec2*)a[0])); }
void o160(void* const* a, void* r) { (void)a; (void)r; R(BOOL, zcm::all(*(const zcm::bvec3*)a[0])); }
void o161(void* const* a, void* r) { (void)a; (void)r; R(BOOL, zcm::all(*(const zcm::bvec4*)a[0])); }
void o162(void* const* a, void* r) { (void)a; (void)r; R(BOOL, zcm::any(*(const zcm::bvec2*)a[0])); }
void o163(void* const* a, void* r) { (void)a; (void)r; R(BOOL, zcm::any(*(const zcm::bvec3*)a[0])); }
void o164(void* const* a, void* r) { (void)a; (void)r; R(BOOL, zcm::any(*(const zcm::bvec4*)a[0])); }
void o165(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::ceil(*(const float*)a[0])); }
void o166(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::ceil(*(const zcm::vec2*)a[0])); }
void o167(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::ceil(*(const zcm::vec3*)a[0])); }
void o168(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::ceil(*(const zcm::vec4*)a[0])); }
void o169(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::clamp(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2])); }
void o170(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::clamp(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1], *(const zcm::vec2*)a[2])); }
void o171(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::clamp(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1], *(const zcm::vec3*)a[2])); }
void o172(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::clamp(*(const zcm::vec4*)a[0], *(const zcm::vec4*)a[1], *(const zcm::vec4*)a[2])); }
void o173(void* const* a, void* r) { (void)a; (void)r; R(INT, zcm::clamp(*(const int32_t*)a[0], *(const int32_t*)a[1], *(const int32_t*)a[2])); }
void o174(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::clamp(*(const zcm::ivec2*)a[0], *(const zcm::ivec2*)a[1], *(const zcm::ivec2*)a[2])); }
void o175(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::clamp(*(const zcm::ivec3*)a[0], *(const zcm::ivec3*)a[1], *(const zcm::ivec3*)a[2])); }
void o176(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::clamp(*(const zcm::ivec4*)a[0], *(const zcm::ivec4*)a[1], *(const zcm::ivec4*)a[2])); }
void o177(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::floor(*(const float*)a[0])); }
void o178(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::floor(*(const zcm::vec2*)a[0])); }
void o179(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::floor(*(const zcm::vec3*)a[0])); }
void o180(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::floor(*(const zcm::vec4*)a[0])); }
void o181(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, zcm::fma(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2])); }
void o182(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::fma(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1], *(const zcm::vec2*)a[2])); }
void o183(void* const* a, void* r) { (void)a; (void)r; R(VEC3, zcm::fma(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1], *(const zcm::vec3*)a[2])); }
}
extern const OpDesc zcm_ops_00[] = {
  {"cos(float)", o0, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"cos(vec2)", o1, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"cos(vec3)", o2, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"cos(vec4)", o3, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"sin(float)", o4, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"sin(vec2)", o5, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"sin(vec3)", o6, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"sin(vec4)", o7, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"acos(float)", o8, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"acos(vec2)", o9, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"acos(vec3)", o10, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"acos(vec4)", o11, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"acosh(float)", o12, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"acosh(vec2)", o13, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"acosh(vec3)", o14, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"acosh(vec4)", o15, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"asin(float)", o16, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"asin(vec2)", o17, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"asin(vec3)", o18, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"asin(vec4)", o19, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"asinh(float)", o20, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"asinh(vec2)", o21, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"asinh(vec3)", o22, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"asinh(vec4)", o23, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"atan(float,float)", o24, T_FLOAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"atan(vec2,vec2)", o25, T_VEC2, 2, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"atan(vec3,vec3)", o26, T_VEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"atan(vec4,vec4)", o27, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"atan(float)", o28, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"atan(vec2)", o29, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"atan(vec3)", o30, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"atan(vec4)", o31, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"atanh(float)", o32, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"atanh(vec2)", o33, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"atanh(vec3)", o34, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"atanh(vec4)", o35, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"cosh(float)", o36, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"cosh(vec2)", o37, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"cosh(vec3)", o38, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"cosh(vec4)", o39, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"degrees(float)", o40, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"degrees(vec2)", o41, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"degrees(vec3)", o42, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"degrees(vec4)", o43, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"radians(float)", o44, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"radians(vec2)", o45, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"radians(vec3)", o46, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"radians(vec4)", o47, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"sinh(float)", o48, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"sinh(vec2)", o49, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"sinh(vec3)", o50, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"sinh(vec4)", o51, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"tan(float)", o52, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"tan(vec2)", o53, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"tan(vec3)", o54, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"tan(vec4)", o55, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"tanh(float)", o56, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"tanh(vec2)", o57, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"tanh(vec3)", o58, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"tanh(vec4)", o59, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"bvec2::bvec2()", o60, T_BVEC2, 0, {}, -1, 0},
  {"bvec2::bvec2(bool)", o61, T_BVEC2, 1, {{T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec2::bvec2(bool,bool)", o62, T_BVEC2, 2, {{T_BOOL, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec2::operator[] read", o63, T_BOOL, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 2}}, -1, 0},
  {"bvec2::operator[] write", o64, T_VOID, 3, {{T_BVEC2, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 2}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"const bvec2::operator[]", o65, T_BOOL, 2, {{T_BVEC2, 1, D_ANY, 0}, {T_UINT, 0, D_IDX, 2}}, -1, 0},
  {"bvec2::operator&=(bool)", o66, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec2::operator|=(bool)", o67, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec2::operator^=(bool)", o68, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec2::operator&=(bvec2)", o69, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"bvec2::operator|=(bvec2)", o70, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"bvec2::operator^=(bvec2)", o71, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"make_bvec2(boolptr)", o72, T_BVEC2, 1, {{T_BOOL, 1, D_ARR, 2}}, -1, 0},
  {"operator==(bvec2,bvec2)", o73, T_BOOL, 2, {{T_BVEC2, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator!=(bvec2,bvec2)", o74, T_BOOL, 2, {{T_BVEC2, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator!(bvec2)", o75, T_BVEC2, 1, {{T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator&&(bvec2,bvec2)", o76, T_BVEC2, 2, {{T_BVEC2, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator||(bvec2,bvec2)", o77, T_BVEC2, 2, {{T_BVEC2, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator^(bvec2,bvec2)", o78, T_BVEC2, 2, {{T_BVEC2, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator&&(bvec2,bool)", o79, T_BVEC2, 2, {{T_BVEC2, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"operator||(bvec2,bool)", o80, T_BVEC2, 2, {{T_BVEC2, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"operator^(bvec2,bool)", o81, T_BVEC2, 2, {{T_BVEC2, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"operator&&(bool,bvec2)", o82, T_BVEC2, 2, {{T_BOOL, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator||(bool,bvec2)", o83, T_BVEC2, 2, {{T_BOOL, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator^(bool,bvec2)", o84, T_BVEC2, 2, {{T_BOOL, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"bvec3::bvec3()", o85, T_BVEC3, 0, {}, -1, 0},
  {"bvec3::bvec3(bool)", o86, T_BVEC3, 1, {{T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec3::bvec3(bool,bool,bool)", o87, T_BVEC3, 3, {{T_BOOL, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec3::bvec3(bvec2,bool)", o88, T_BVEC3, 2, {{T_BVEC2, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec3::bvec3(bool,bvec2)", o89, T_BVEC3, 2, {{T_BOOL, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"bvec3::operator[] read", o90, T_BOOL, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 3}}, -1, 0},
  {"bvec3::operator[] write", o91, T_VOID, 3, {{T_BVEC3, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 3}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"const bvec3::operator[]", o92, T_BOOL, 2, {{T_BVEC3, 1, D_ANY, 0}, {T_UINT, 0, D_IDX, 3}}, -1, 0},
  {"bvec3::operator&=(bool)", o93, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec3::operator|=(bool)", o94, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec3::operator^=(bool)", o95, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec3::operator&=(bvec3)", o96, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"bvec3::operator|=(bvec3)", o97, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"bvec3::operator^=(bvec3)", o98, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"make_bvec3(boolptr)", o99, T_BVEC3, 1, {{T_BOOL, 1, D_ARR, 3}}, -1, 0},
  {"operator==(bvec3,bvec3)", o100, T_BOOL, 2, {{T_BVEC3, 0, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator!=(bvec3,bvec3)", o101, T_BOOL, 2, {{T_BVEC3, 0, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator!(bvec3)", o102, T_BVEC3, 1, {{T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator&&(bvec3,bvec3)", o103, T_BVEC3, 2, {{T_BVEC3, 0, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator||(bvec3,bvec3)", o104, T_BVEC3, 2, {{T_BVEC3, 0, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator^(bvec3,bvec3)", o105, T_BVEC3, 2, {{T_BVEC3, 0, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator&&(bvec3,bool)", o106, T_BVEC3, 2, {{T_BVEC3, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"operator||(bvec3,bool)", o107, T_BVEC3, 2, {{T_BVEC3, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"operator^(bvec3,bool)", o108, T_BVEC3, 2, {{T_BVEC3, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"operator&&(bool,bvec3)", o109, T_BVEC3, 2, {{T_BOOL, 0, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator||(bool,bvec3)", o110, T_BVEC3, 2, {{T_BOOL, 0, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator^(bool,bvec3)", o111, T_BVEC3, 2, {{T_BOOL, 0, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::bvec4()", o112, T_BVEC4, 0, {}, -1, 0},
  {"bvec4::bvec4(bool)", o113, T_BVEC4, 1, {{T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::bvec4(bool,bool,bool,bool)", o114, T_BVEC4, 4, {{T_BOOL, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::bvec4(bvec3,bool)", o115, T_BVEC4, 2, {{T_BVEC3, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::bvec4(bool,bvec3)", o116, T_BVEC4, 2, {{T_BOOL, 0, D_ANY, 0}, {T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::bvec4(bvec2,bvec2)", o117, T_BVEC4, 2, {{T_BVEC2, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::bvec4(bvec2,bool,bool)", o118, T_BVEC4, 3, {{T_BVEC2, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::bvec4(bool,bvec2,bool)", o119, T_BVEC4, 3, {{T_BOOL, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::bvec4(bool,bool,bvec2)", o120, T_BVEC4, 3, {{T_BOOL, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}, {T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::operator[] read", o121, T_BOOL, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}}, -1, 0},
  {"bvec4::operator[] write", o122, T_VOID, 3, {{T_BVEC4, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"const bvec4::operator[]", o123, T_BOOL, 2, {{T_BVEC4, 1, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}}, -1, 0},
  {"bvec4::operator&=(bool)", o124, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::operator|=(bool)", o125, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::operator^=(bool)", o126, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::operator&=(bvec4)", o127, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::operator|=(bvec4)", o128, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"bvec4::operator^=(bvec4)", o129, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"make_bvec4(boolptr)", o130, T_BVEC4, 1, {{T_BOOL, 1, D_ARR, 4}}, -1, 0},
  {"operator==(bvec4,bvec4)", o131, T_BOOL, 2, {{T_BVEC4, 0, D_ANY, 0}, {T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator!=(bvec4,bvec4)", o132, T_BOOL, 2, {{T_BVEC4, 0, D_ANY, 0}, {T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator!(bvec4)", o133, T_BVEC4, 1, {{T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator&&(bvec4,bvec4)", o134, T_BVEC4, 2, {{T_BVEC4, 0, D_ANY, 0}, {T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator||(bvec4,bvec4)", o135, T_BVEC4, 2, {{T_BVEC4, 0, D_ANY, 0}, {T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator^(bvec4,bvec4)", o136, T_BVEC4, 2, {{T_BVEC4, 0, D_ANY, 0}, {T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator&&(bvec4,bool)", o137, T_BVEC4, 2, {{T_BVEC4, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"operator||(bvec4,bool)", o138, T_BVEC4, 2, {{T_BVEC4, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"operator^(bvec4,bool)", o139, T_BVEC4, 2, {{T_BVEC4, 0, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"operator&&(bool,bvec4)", o140, T_BVEC4, 2, {{T_BOOL, 0, D_ANY, 0}, {T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator||(bool,bvec4)", o141, T_BVEC4, 2, {{T_BOOL, 0, D_ANY, 0}, {T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator^(bool,bvec4)", o142, T_BVEC4, 2, {{T_BOOL, 0, D_ANY, 0}, {T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"convertLinearToSRGB(vec3)", o143, T_VEC3, 1, {{T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"convertLinearToSRGB(vec4)", o144, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"convertLinearToSRGB(vec3,float)", o145, T_VEC3, 2, {{T_VEC3, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"convertLinearToSRGB(vec4,float)", o146, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"convertSRGBToLinear(vec3)", o147, T_VEC3, 1, {{T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"convertSRGBToLinear(vec4)", o148, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"convertSRGBToLinear(vec3,float)", o149, T_VEC3, 2, {{T_VEC3, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"convertSRGBToLinear(vec4,float)", o150, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"abs(float)", o151, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"abs(vec2)", o152, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"abs(vec3)", o153, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"abs(vec4)", o154, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"abs(int)", o155, T_INT, 1, {{T_INT, 0, D_ANY, 0}}, -1, 0},
  {"abs(ivec2)", o156, T_IVEC2, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"abs(ivec3)", o157, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"abs(ivec4)", o158, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"all(bvec2)", o159, T_BOOL, 1, {{T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"all(bvec3)", o160, T_BOOL, 1, {{T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"all(bvec4)", o161, T_BOOL, 1, {{T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"any(bvec2)", o162, T_BOOL, 1, {{T_BVEC2, 0, D_ANY, 0}}, -1, 0},
  {"any(bvec3)", o163, T_BOOL, 1, {{T_BVEC3, 0, D_ANY, 0}}, -1, 0},
  {"any(bvec4)", o164, T_BOOL, 1, {{T_BVEC4, 0, D_ANY, 0}}, -1, 0},
  {"ceil(float)", o165, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"ceil(vec2)", o166, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"ceil(vec3)", o167, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"ceil(vec4)", o168, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"clamp(float,float,float)", o169, T_FLOAT, 3, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"clamp(vec2,vec2,vec2)", o170, T_VEC2, 3, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"clamp(vec3,vec3,vec3)", o171, T_VEC3, 3, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"clamp(vec4,vec4,vec4)", o172, T_VEC4, 3, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"clamp(int,int,int)", o173, T_INT, 3, {{T_INT, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"clamp(ivec2,ivec2,ivec2)", o174, T_IVEC2, 3, {{T_IVEC2, 1, D_ANY, 0}, {T_IVEC2, 1, D_ANY, 0}, {T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"clamp(ivec3,ivec3,ivec3)", o175, T_IVEC3, 3, {{T_IVEC3, 1, D_ANY, 0}, {T_IVEC3, 1, D_ANY, 0}, {T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"clamp(ivec4,ivec4,ivec4)", o176, T_IVEC4, 3, {{T_IVEC4, 1, D_ANY, 0}, {T_IVEC4, 1, D_ANY, 0}, {T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"floor(float)", o177, T_FLOAT, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"floor(vec2)", o178, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"floor(vec3)", o179, T_VEC3, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"floor(vec4)", o180, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"fma(float,float,float)", o181, T_FLOAT, 3, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"fma(vec2,vec2,vec2)", o182, T_VEC2, 3, {{T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}, {T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"fma(vec3,vec3,vec3)", o183, T_VEC3, 3, {{T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
};
extern const unsigned zcm_nops_00 = 184;
