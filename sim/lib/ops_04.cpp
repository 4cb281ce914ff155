// generated by tools/genops.py from the public headers; do not edit
#include <stddef.h>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/fwd.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

#include <new>
#include <functional>
#include "ops.hpp"
#define R(T, ...) new (r) CT_##T(__VA_ARGS__)
typedef float CT_FLOAT;
typedef int32_t CT_INT;
typedef unsigned CT_UINT;
typedef bool CT_BOOL;
typedef size_t CT_U64;
typedef zcm::vec2 CT_VEC2;
typedef zcm::vec3 CT_VEC3;
typedef zcm::vec4 CT_VEC4;
typedef zcm::ivec2 CT_IVEC2;
typedef zcm::ivec3 CT_IVEC3;
typedef zcm::ivec4 CT_IVEC4;
typedef zcm::bvec2 CT_BVEC2;
typedef zcm::bvec3 CT_BVEC3;
typedef zcm::bvec4 CT_BVEC4;
typedef zcm::mat2 CT_MAT2;
typedef zcm::mat3 CT_MAT3;
typedef zcm::mat4 CT_MAT4;
typedef zcm::quat CT_QUAT;
namespace {
void o0(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wyxw)); }
void o1(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzxw)); }
void o2(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzxw)); }
void o3(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzxw)); }
void o4(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzxw)); }
void o5(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwxw)); }
void o6(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywxw)); }
void o7(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwxw)); }
void o8(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwxw)); }
void o9(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxyw)); }
void o10(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxyw)); }
void o11(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxyw)); }
void o12(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxyw)); }
void o13(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xyyw)); }
void o14(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yyyw)); }
void o15(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zyyw)); }
void o16(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wyyw)); }
void o17(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzyw)); }
void o18(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzyw)); }
void o19(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzyw)); }
void o20(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzyw)); }
void o21(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwyw)); }
void o22(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywyw)); }
void o23(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwyw)); }
void o24(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwyw)); }
void o25(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxzw)); }
void o26(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxzw)); }
void o27(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxzw)); }
void o28(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxzw)); }
void o29(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xyzw)); }
void o30(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yyzw)); }
void o31(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zyzw)); }
void o32(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wyzw)); }
void o33(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzzw)); }
void o34(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzzw)); }
void o35(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzzw)); }
void o36(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzzw)); }
void o37(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwzw)); }
void o38(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywzw)); }
void o39(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwzw)); }
void o40(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwzw)); }
void o41(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxww)); }
void o42(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxww)); }
void o43(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxww)); }
void o44(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxww)); }
void o45(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xyww)); }
void o46(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yyww)); }
void o47(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zyww)); }
void o48(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wyww)); }
void o49(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzww)); }
void o50(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzww)); }
void o51(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzww)); }
void o52(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzww)); }
void o53(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwww)); }
void o54(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywww)); }
void o55(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwww)); }
void o56(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwww)); }
void o57(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::make_vec4((const float*)a[0])); }
void o58(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::vec4*)a[0]) == (*(const zcm::vec4*)a[1])); }
void o59(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::vec4*)a[0]) != (*(const zcm::vec4*)a[1])); }
void o60(void* const* a, void* r) { (void)a; (void)r; R(VEC4, -(*(const zcm::vec4*)a[0])); }
void o61(void* const* a, void* r) { (void)a; (void)r; R(VEC4, +(*(const zcm::vec4*)a[0])); }
void o62(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const zcm::vec4*)a[0]) + (*(const zcm::vec4*)a[1])); }
void o63(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const zcm::vec4*)a[0]) - (*(const zcm::vec4*)a[1])); }
void o64(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const zcm::vec4*)a[0]) * (*(const zcm::vec4*)a[1])); }
void o65(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const zcm::vec4*)a[0]) / (*(const zcm::vec4*)a[1])); }
void o66(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const zcm::vec4*)a[0]) + (*(const float*)a[1])); }
void o67(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const zcm::vec4*)a[0]) - (*(const float*)a[1])); }
void o68(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const zcm::vec4*)a[0]) * (*(const float*)a[1])); }
void o69(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const zcm::vec4*)a[0]) / (*(const float*)a[1])); }
void o70(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const float*)a[0]) + (*(const zcm::vec4*)a[1])); }
void o71(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const float*)a[0]) - (*(const zcm::vec4*)a[1])); }
void o72(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const float*)a[0]) * (*(const zcm::vec4*)a[1])); }
void o73(void* const* a, void* r) { (void)a; (void)r; R(VEC4, (*(const float*)a[0]) / (*(const zcm::vec4*)a[1])); }
void o74(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::quat()); }
void o75(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::quat(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3])); }
void o76(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::quat(*(const float*)a[0], *(const zcm::vec3*)a[1])); }
void o77(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::quat(*(const zcm::vec3*)a[0], *(const float*)a[1])); }
void o78(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::quat::wxyz(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3])); }
void o79(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::quat(*(const zcm::vec3*)a[0], *(const zcm::vec3*)a[1])); }
void o80(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::quat(*(const zcm::vec3*)a[0])); }
void o81(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::quat*)a[0])[*(const unsigned*)a[1]]); }
void o82(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0])[*(const unsigned*)a[1]] = *(const float*)a[2]; }
void o83(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(const zcm::quat*)a[0])[*(const unsigned*)a[1]]); }
void o84(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0]) += *(const zcm::quat*)a[1]; }
void o85(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0]) -= *(const zcm::quat*)a[1]; }
void o86(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0]) *= *(const zcm::quat*)a[1]; }
void o87(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0]) *= *(const float*)a[1]; }
void o88(void* const* a, void* r) { (void)a; (void)r; (*(zcm::quat*)a[0]) /= *(const float*)a[1]; }
void o89(void* const* a, void* r) { (void)a; (void)r; R(QUAT, zcm::make_quat((const float*)a[0])); }
void o90(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::quat*)a[0]) == (*(const zcm::quat*)a[1])); }
void o91(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::quat*)a[0]) != (*(const zcm::quat*)a[1])); }
void o92(void* const* a, void* r) { (void)a; (void)r; R(QUAT, (*(const zcm::quat*)a[0]) + (*(const zcm::quat*)a[1])); }
void o93(void* const* a, void* r) { (void)a; (void)r; R(QUAT, (*(const zcm::quat*)a[0]) - (*(const zcm::quat*)a[1])); }
void o94(void* const* a, void* r) { (void)a; (void)r; R(QUAT, (*(const zcm::quat*)a[0]) * (*(const zcm::quat*)a[1])); }
void o95(void* const* a, void* r) { (void)a; (void)r; R(QUAT, +(*(const zcm::quat*)a[0])); }
void o96(void* const* a, void* r) { (void)a; (void)r; R(QUAT, -(*(const zcm::quat*)a[0])); }
void o97(void* const* a, void* r) { (void)a; (void)r; R(QUAT, (*(const zcm::quat*)a[0]) * (*(const float*)a[1])); }
void o98(void* const* a, void* r) { (void)a; (void)r; R(QUAT, (*(const float*)a[0]) * (*(const zcm::quat*)a[1])); }
void o99(void* const* a, void* r) { (void)a; (void)r; R(QUAT, (*(const float*)a[0]) / (*(const zcm::quat*)a[1])); }
void o100(void* const* a, void* r) { (void)a; (void)r; R(QUAT, (*(const zcm::quat*)a[0]) / (*(const float*)a[1])); }
void o101(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::quat*)a[0]) * (*(const zcm::vec3*)a[1])); }
void o102(void* const* a, void* r) { (void)a; (void)r; R(VEC3, (*(const zcm::vec3*)a[0]) * (*(const zcm::quat*)a[1])); }
void o103(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const float*)a[0])); }
void o104(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const bool*)a[0])); }
void o105(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const int32_t*)a[0])); }
void o106(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const unsigned*)a[0])); }
void o107(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const zcm::bvec2*)a[0])); }
void o108(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const zcm::bvec3*)a[0])); }
void o109(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const zcm::bvec4*)a[0])); }
void o110(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const zcm::ivec2*)a[0])); }
void o111(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const zcm::ivec3*)a[0])); }
void o112(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const zcm::ivec4*)a[0])); }
void o113(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const zcm::vec2*)a[0])); }
void o114(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const zcm::vec3*)a[0])); }
void o115(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const zcm::vec4*)a[0])); }
void o116(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const zcm::quat*)a[0])); }
void o117(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const zcm::mat2*)a[0])); }
void o118(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const zcm::mat3*)a[0])); }
void o119(void* const* a, void* r) { (void)a; (void)r; R(U64, zcm::hash(*(const zcm::mat4*)a[0])); }
void o120(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2()); }
void o121(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2(*(const int32_t*)a[0])); }
void o122(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2(*(const int32_t*)a[0], *(const int32_t*)a[1])); }
void o123(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec2*)a[0])[*(const unsigned*)a[1]]); }
void o124(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0])[*(const unsigned*)a[1]] = *(const int32_t*)a[2]; }
void o125(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(const zcm::ivec2*)a[0])[*(const unsigned*)a[1]]); }
void o126(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) += *(const zcm::ivec2*)a[1]; }
void o127(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) -= *(const zcm::ivec2*)a[1]; }
void o128(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) *= *(const zcm::ivec2*)a[1]; }
void o129(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) /= *(const zcm::ivec2*)a[1]; }
void o130(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) %= *(const zcm::ivec2*)a[1]; }
void o131(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) |= *(const zcm::ivec2*)a[1]; }
void o132(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) &= *(const zcm::ivec2*)a[1]; }
void o133(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) ^= *(const zcm::ivec2*)a[1]; }
void o134(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) >>= *(const zcm::ivec2*)a[1]; }
void o135(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) <<= *(const zcm::ivec2*)a[1]; }
void o136(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) += *(const int32_t*)a[1]; }
void o137(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) -= *(const int32_t*)a[1]; }
void o138(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) *= *(const int32_t*)a[1]; }
void o139(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) /= *(const int32_t*)a[1]; }
void o140(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) %= *(const int32_t*)a[1]; }
void o141(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) |= *(const int32_t*)a[1]; }
void o142(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) &= *(const int32_t*)a[1]; }
void o143(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) ^= *(const int32_t*)a[1]; }
void o144(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) >>= *(const int32_t*)a[1]; }
void o145(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]) <<= *(const int32_t*)a[1]; }
void o146(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, ++(*(zcm::ivec2*)a[0])); }
void o147(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, --(*(zcm::ivec2*)a[0])); }
void o148(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(zcm::ivec2*)a[0])++); }
void o149(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(zcm::ivec2*)a[0])--); }
void o150(void* const* a, void* r) { (void)a; (void)r; R(BVEC2, static_cast<zcm::bvec2>(*(const zcm::ivec2*)a[0])); }
void o151(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec2*)a[0]).xx)); }
void o152(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec2*)a[0]).yx)); }
void o153(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec2*)a[0]).xy)); }
void o154(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec2*)a[0]).yy)); }
void o155(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::make_ivec2((const int32_t*)a[0])); }
void o156(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec2*)a[0]) == (*(const zcm::ivec2*)a[1])); }
void o157(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec2*)a[0]) != (*(const zcm::ivec2*)a[1])); }
void o158(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec2*)a[0]) < (*(const zcm::ivec2*)a[1])); }
void o159(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec2*)a[0]) <= (*(const zcm::ivec2*)a[1])); }
void o160(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec2*)a[0]) > (*(const zcm::ivec2*)a[1])); }
void o161(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec2*)a[0]) >= (*(const zcm::ivec2*)a[1])); }
void o162(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, +(*(const zcm::ivec2*)a[0])); }
void o163(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, -(*(const zcm::ivec2*)a[0])); }
void o164(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) + (*(const zcm::ivec2*)a[1])); }
void o165(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) - (*(const zcm::ivec2*)a[1])); }
void o166(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) * (*(const zcm::ivec2*)a[1])); }
void o167(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) / (*(const zcm::ivec2*)a[1])); }
void o168(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) % (*(const zcm::ivec2*)a[1])); }
void o169(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) & (*(const zcm::ivec2*)a[1])); }
void o170(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) | (*(const zcm::ivec2*)a[1])); }
void o171(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) ^ (*(const zcm::ivec2*)a[1])); }
void o172(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) << (*(const zcm::ivec2*)a[1])); }
void o173(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) >> (*(const zcm::ivec2*)a[1])); }
void o174(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) + (*(const int32_t*)a[1])); }
void o175(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) - (*(const int32_t*)a[1])); }
void o176(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) * (*(const int32_t*)a[1])); }
void o177(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) / (*(const int32_t*)a[1])); }
void o178(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) % (*(const int32_t*)a[1])); }
void o179(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) & (*(const int32_t*)a[1])); }
void o180(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) | (*(const int32_t*)a[1])); }
void o181(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) ^ (*(const int32_t*)a[1])); }
void o182(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) << (*(const int32_t*)a[1])); }
void o183(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const zcm::ivec2*)a[0]) >> (*(const int32_t*)a[1])); }
}
extern const OpDesc zcm_ops_04[] = {
  {"vec4.wyxw", o0, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzxw", o1, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzxw", o2, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzxw", o3, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzxw", o4, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwxw", o5, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywxw", o6, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwxw", o7, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwxw", o8, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxyw", o9, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxyw", o10, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxyw", o11, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxyw", o12, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyyw", o13, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyyw", o14, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyyw", o15, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyyw", o16, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzyw", o17, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzyw", o18, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzyw", o19, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzyw", o20, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwyw", o21, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywyw", o22, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwyw", o23, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwyw", o24, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxzw", o25, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxzw", o26, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxzw", o27, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxzw", o28, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyzw", o29, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyzw", o30, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyzw", o31, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyzw", o32, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzzw", o33, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzzw", o34, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzzw", o35, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzzw", o36, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwzw", o37, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywzw", o38, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwzw", o39, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwzw", o40, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxww", o41, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxww", o42, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxww", o43, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxww", o44, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyww", o45, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyww", o46, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyww", o47, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyww", o48, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzww", o49, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzww", o50, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzww", o51, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzww", o52, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwww", o53, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywww", o54, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwww", o55, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwww", o56, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"make_vec4(floatptr)", o57, T_VEC4, 1, {{T_FLOAT, 1, D_ARR, 4}}, -1, 0},
  {"operator==(vec4,vec4)", o58, T_BOOL, 2, {{T_VEC4, 1, D_ANY, 0}, {T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"operator!=(vec4,vec4)", o59, T_BOOL, 2, {{T_VEC4, 1, D_ANY, 0}, {T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"operator-(vec4)", o60, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator+(vec4)", o61, T_VEC4, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator+(vec4,vec4)", o62, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator-(vec4,vec4)", o63, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator*(vec4,vec4)", o64, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator/(vec4,vec4)", o65, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator+(vec4,float)", o66, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator-(vec4,float)", o67, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator*(vec4,float)", o68, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator/(vec4,float)", o69, T_VEC4, 2, {{T_VEC4, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator+(float,vec4)", o70, T_VEC4, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator-(float,vec4)", o71, T_VEC4, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator*(float,vec4)", o72, T_VEC4, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator/(float,vec4)", o73, T_VEC4, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"quat::quat()", o74, T_QUAT, 0, {}, -1, 0},
  {"quat::quat(float,float,float,float)", o75, T_QUAT, 4, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"quat::quat(float,vec3)", o76, T_QUAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"quat::quat(vec3,float)", o77, T_QUAT, 2, {{T_VEC3, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"quat::wxyz", o78, T_QUAT, 4, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"quat::quat(vec3,vec3)", o79, T_QUAT, 2, {{T_VEC3, 0, D_ANY, 0}, {T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"quat::quat(vec3)", o80, T_QUAT, 1, {{T_VEC3, 0, D_ANY, 0}}, -1, 0},
  {"quat::operator[] read", o81, T_FLOAT, 2, {{T_QUAT, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}}, -1, 0},
  {"quat::operator[] write", o82, T_VOID, 3, {{T_QUAT, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"const quat::operator[]", o83, T_FLOAT, 2, {{T_QUAT, 1, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}}, -1, 0},
  {"quat::operator+=(quat)", o84, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"quat::operator-=(quat)", o85, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"quat::operator*=(quat)", o86, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"quat::operator*=(float)", o87, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"quat::operator/=(float)", o88, T_VOID, 2, {{T_QUAT, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"make_quat(floatptr)", o89, T_QUAT, 1, {{T_FLOAT, 1, D_ARR, 4}}, -1, 0},
  {"operator==(quat,quat)", o90, T_BOOL, 2, {{T_QUAT, 1, D_ANY, 0}, {T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"operator!=(quat,quat)", o91, T_BOOL, 2, {{T_QUAT, 1, D_ANY, 0}, {T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"operator+(quat,quat)", o92, T_QUAT, 2, {{T_QUAT, 1, D_ANY, 0}, {T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"operator-(quat,quat)", o93, T_QUAT, 2, {{T_QUAT, 1, D_ANY, 0}, {T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"operator*(quat,quat)", o94, T_QUAT, 2, {{T_QUAT, 1, D_ANY, 0}, {T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"operator+(quat)", o95, T_QUAT, 1, {{T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"operator-(quat)", o96, T_QUAT, 1, {{T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"operator*(quat,float)", o97, T_QUAT, 2, {{T_QUAT, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator*(float,quat)", o98, T_QUAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"operator/(float,quat)", o99, T_QUAT, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"operator/(quat,float)", o100, T_QUAT, 2, {{T_QUAT, 1, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator*(quat,vec3)", o101, T_VEC3, 2, {{T_QUAT, 1, D_ANY, 0}, {T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"operator*(vec3,quat)", o102, T_VEC3, 2, {{T_VEC3, 1, D_ANY, 0}, {T_QUAT, 1, D_ANY, 0}}, -1, 0},
  {"hash(float)", o103, T_U64, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"hash(bool)", o104, T_U64, 1, {{T_BOOL, 0, D_ANY, 0}}, -1, 0},
  {"hash(int)", o105, T_U64, 1, {{T_INT, 0, D_ANY, 0}}, -1, 0},
  {"hash(uint)", o106, T_U64, 1, {{T_UINT, 0, D_ANY, 0}}, -1, 0},
  {"hash(bvec2)", o107, T_U64, 1, {{T_BVEC2, 1, D_ANY, 0}}, -1, 0},
  {"hash(bvec3)", o108, T_U64, 1, {{T_BVEC3, 1, D_ANY, 0}}, -1, 0},
  {"hash(bvec4)", o109, T_U64, 1, {{T_BVEC4, 1, D_ANY, 0}}, -1, 0},
  {"hash(ivec2)", o110, T_U64, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"hash(ivec3)", o111, T_U64, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"hash(ivec4)", o112, T_U64, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"hash(vec2)", o113, T_U64, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"hash(vec3)", o114, T_U64, 1, {{T_VEC3, 1, D_ANY, 0}}, -1, 0},
  {"hash(vec4)", o115, T_U64, 1, {{T_VEC4, 0, D_ANY, 0}}, -1, 0},
  {"hash(quat)", o116, T_U64, 1, {{T_QUAT, 0, D_ANY, 0}}, -1, 0},
  {"hash(mat2)", o117, T_U64, 1, {{T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"hash(mat3)", o118, T_U64, 1, {{T_MAT3, 1, D_ANY, 0}}, -1, 0},
  {"hash(mat4)", o119, T_U64, 1, {{T_MAT4, 1, D_ANY, 0}}, -1, 0},
  {"ivec2::ivec2()", o120, T_IVEC2, 0, {}, -1, 0},
  {"ivec2::ivec2(int)", o121, T_IVEC2, 1, {{T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::ivec2(int,int)", o122, T_IVEC2, 2, {{T_INT, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::operator[] read", o123, T_INT, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 2}}, -1, 0},
  {"ivec2::operator[] write", o124, T_VOID, 3, {{T_IVEC2, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 2}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"const ivec2::operator[]", o125, T_INT, 2, {{T_IVEC2, 1, D_ANY, 0}, {T_UINT, 0, D_IDX, 2}}, -1, 0},
  {"ivec2::operator+=(ivec2)", o126, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::operator-=(ivec2)", o127, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::operator*=(ivec2)", o128, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::operator/=(ivec2)", o129, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_IVEC2, 0, D_NZ, 0}}, -1, 0},
  {"ivec2::operator%=(ivec2)", o130, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_IVEC2, 0, D_NZ, 0}}, -1, 0},
  {"ivec2::operator|=(ivec2)", o131, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::operator&=(ivec2)", o132, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::operator^=(ivec2)", o133, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::operator>>=(ivec2)", o134, T_VOID, 2, {{T_IVEC2, 2, D_NNEG, 0}, {T_IVEC2, 0, D_SHIFT, 0}}, -1, 0},
  {"ivec2::operator<<=(ivec2)", o135, T_VOID, 2, {{T_IVEC2, 2, D_NNEG, 0}, {T_IVEC2, 0, D_SHIFT, 0}}, -1, 0},
  {"ivec2::operator+=(int)", o136, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::operator-=(int)", o137, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::operator*=(int)", o138, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::operator/=(int)", o139, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, -1, 0},
  {"ivec2::operator%=(int)", o140, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, -1, 0},
  {"ivec2::operator|=(int)", o141, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::operator&=(int)", o142, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::operator^=(int)", o143, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec2::operator>>=(int)", o144, T_VOID, 2, {{T_IVEC2, 2, D_NNEG, 0}, {T_INT, 0, D_SHIFT, 0}}, -1, 0},
  {"ivec2::operator<<=(int)", o145, T_VOID, 2, {{T_IVEC2, 2, D_NNEG, 0}, {T_INT, 0, D_SHIFT, 0}}, -1, 0},
  {"ivec2::operator++()", o146, T_IVEC2, 1, {{T_IVEC2, 2, D_ANY, 0}}, -1, 0},
  {"ivec2::operator--()", o147, T_IVEC2, 1, {{T_IVEC2, 2, D_ANY, 0}}, -1, 0},
  {"ivec2::operator++(int)", o148, T_IVEC2, 1, {{T_IVEC2, 2, D_ANY, 0}}, -1, 0},
  {"ivec2::operator--(int)", o149, T_IVEC2, 1, {{T_IVEC2, 2, D_ANY, 0}}, -1, 0},
  {"ivec2::operator bvec2", o150, T_BVEC2, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"ivec2.xx", o151, T_IVEC2, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"ivec2.yx", o152, T_IVEC2, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"ivec2.xy", o153, T_IVEC2, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"ivec2.yy", o154, T_IVEC2, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"make_ivec2(intptr)", o155, T_IVEC2, 1, {{T_INT, 1, D_ARR, 2}}, -1, 0},
  {"operator==(ivec2,ivec2)", o156, T_BOOL, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator!=(ivec2,ivec2)", o157, T_BOOL, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator<(ivec2,ivec2)", o158, T_BOOL, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator<=(ivec2,ivec2)", o159, T_BOOL, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator>(ivec2,ivec2)", o160, T_BOOL, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator>=(ivec2,ivec2)", o161, T_BOOL, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator+(ivec2)", o162, T_IVEC2, 1, {{T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator-(ivec2)", o163, T_IVEC2, 1, {{T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator+(ivec2,ivec2)", o164, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator-(ivec2,ivec2)", o165, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator*(ivec2,ivec2)", o166, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator/(ivec2,ivec2)", o167, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_NZ, 0}}, -1, 0},
  {"operator%(ivec2,ivec2)", o168, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_NZ, 0}}, -1, 0},
  {"operator&(ivec2,ivec2)", o169, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator|(ivec2,ivec2)", o170, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator^(ivec2,ivec2)", o171, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator<<(ivec2,ivec2)", o172, T_IVEC2, 2, {{T_IVEC2, 0, D_NNEG, 0}, {T_IVEC2, 0, D_SHIFT, 0}}, -1, 0},
  {"operator>>(ivec2,ivec2)", o173, T_IVEC2, 2, {{T_IVEC2, 0, D_NNEG, 0}, {T_IVEC2, 0, D_SHIFT, 0}}, -1, 0},
  {"operator+(ivec2,int)", o174, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator-(ivec2,int)", o175, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator*(ivec2,int)", o176, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator/(ivec2,int)", o177, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, -1, 0},
  {"operator%(ivec2,int)", o178, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, -1, 0},
  {"operator&(ivec2,int)", o179, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator|(ivec2,int)", o180, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator^(ivec2,int)", o181, T_IVEC2, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator<<(ivec2,int)", o182, T_IVEC2, 2, {{T_IVEC2, 0, D_NNEG, 0}, {T_INT, 0, D_SHIFT, 0}}, -1, 0},
  {"operator>>(ivec2,int)", o183, T_IVEC2, 2, {{T_IVEC2, 0, D_NNEG, 0}, {T_INT, 0, D_SHIFT, 0}}, -1, 0},
};
extern const unsigned zcm_nops_04 = 184;
