// generated by tools/genops.py from the public headers; do not edit
#include <stddef.h>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/fwd.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

#include <new>
#include <functional>
#include "ops.hpp"
#define R(T, ...) new (r) CT_##T(__VA_ARGS__)
typedef float CT_FLOAT;
typedef int32_t CT_INT;
typedef unsigned CT_UINT;
typedef bool CT_BOOL;
typedef size_t CT_U64;
typedef zcm::vec2 CT_VEC2;
typedef zcm::vec3 CT_VEC3;
typedef zcm::vec4 CT_VEC4;
typedef zcm::ivec2 CT_IVEC2;
typedef zcm::ivec3 CT_IVEC3;
typedef zcm::ivec4 CT_IVEC4;
typedef zcm::bvec2 CT_BVEC2;
typedef zcm::bvec3 CT_BVEC3;
typedef zcm::bvec4 CT_BVEC4;
typedef zcm::mat2 CT_MAT2;
typedef zcm::mat3 CT_MAT3;
typedef zcm::mat4 CT_MAT4;
typedef zcm::quat CT_QUAT;
namespace {
void o0(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxyz)); }
void o1(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxyz)); }
void o2(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxyz)); }
void o3(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xyyz)); }
void o4(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yyyz)); }
void o5(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zyyz)); }
void o6(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wyyz)); }
void o7(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzyz)); }
void o8(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzyz)); }
void o9(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzyz)); }
void o10(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzyz)); }
void o11(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwyz)); }
void o12(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywyz)); }
void o13(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwyz)); }
void o14(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwyz)); }
void o15(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxzz)); }
void o16(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxzz)); }
void o17(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxzz)); }
void o18(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxzz)); }
void o19(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xyzz)); }
void o20(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yyzz)); }
void o21(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zyzz)); }
void o22(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wyzz)); }
void o23(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzzz)); }
void o24(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzzz)); }
void o25(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzzz)); }
void o26(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzzz)); }
void o27(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwzz)); }
void o28(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywzz)); }
void o29(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwzz)); }
void o30(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwzz)); }
void o31(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxwz)); }
void o32(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxwz)); }
void o33(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxwz)); }
void o34(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxwz)); }
void o35(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xywz)); }
void o36(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yywz)); }
void o37(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zywz)); }
void o38(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wywz)); }
void o39(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzwz)); }
void o40(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzwz)); }
void o41(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzwz)); }
void o42(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzwz)); }
void o43(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwwz)); }
void o44(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywwz)); }
void o45(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwwz)); }
void o46(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwwz)); }
void o47(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxxw)); }
void o48(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxxw)); }
void o49(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxxw)); }
void o50(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxxw)); }
void o51(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xyxw)); }
void o52(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yyxw)); }
void o53(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zyxw)); }
void o54(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wyxw)); }
void o55(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzxw)); }
void o56(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzxw)); }
void o57(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzxw)); }
void o58(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzxw)); }
void o59(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwxw)); }
void o60(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywxw)); }
void o61(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwxw)); }
void o62(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwxw)); }
void o63(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxyw)); }
void o64(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxyw)); }
void o65(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxyw)); }
void o66(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxyw)); }
void o67(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xyyw)); }
void o68(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yyyw)); }
void o69(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zyyw)); }
void o70(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wyyw)); }
void o71(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzyw)); }
void o72(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzyw)); }
void o73(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzyw)); }
void o74(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzyw)); }
void o75(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwyw)); }
void o76(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywyw)); }
void o77(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwyw)); }
void o78(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwyw)); }
void o79(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxzw)); }
void o80(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxzw)); }
void o81(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxzw)); }
void o82(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxzw)); }
void o83(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xyzw)); }
void o84(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yyzw)); }
void o85(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zyzw)); }
void o86(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wyzw)); }
void o87(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzzw)); }
void o88(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzzw)); }
void o89(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzzw)); }
void o90(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzzw)); }
void o91(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwzw)); }
void o92(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywzw)); }
void o93(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwzw)); }
void o94(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwzw)); }
void o95(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxww)); }
void o96(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxww)); }
void o97(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxww)); }
void o98(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxww)); }
void o99(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xyww)); }
void o100(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yyww)); }
void o101(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zyww)); }
void o102(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wyww)); }
void o103(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzww)); }
void o104(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzww)); }
void o105(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzww)); }
void o106(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzww)); }
void o107(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwww)); }
void o108(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywww)); }
void o109(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwww)); }
void o110(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwww)); }
void o111(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::make_ivec4((const int32_t*)a[0])); }
void o112(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec4*)a[0]) == (*(const zcm::ivec4*)a[1])); }
void o113(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec4*)a[0]) != (*(const zcm::ivec4*)a[1])); }
void o114(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec4*)a[0]) < (*(const zcm::ivec4*)a[1])); }
void o115(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec4*)a[0]) <= (*(const zcm::ivec4*)a[1])); }
void o116(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec4*)a[0]) > (*(const zcm::ivec4*)a[1])); }
void o117(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec4*)a[0]) >= (*(const zcm::ivec4*)a[1])); }
void o118(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, -(*(const zcm::ivec4*)a[0])); }
void o119(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, +(*(const zcm::ivec4*)a[0])); }
void o120(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(const zcm::ivec4*)a[0]) + (*(const zcm::ivec4*)a[1])); }
void o121(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(const zcm::ivec4*)a[0]) - (*(const zcm::ivec4*)a[1])); }
void o122(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(const zcm::ivec4*)a[0]) * (*(const zcm::ivec4*)a[1])); }
void o123(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(const zcm::ivec4*)a[0]) / (*(const zcm::ivec4*)a[1])); }
void o124(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(const zcm::ivec4*)a[0]) + (*(const int32_t*)a[1])); }
void o125(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(const zcm::ivec4*)a[0]) - (*(const int32_t*)a[1])); }
void o126(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(const zcm::ivec4*)a[0]) * (*(const int32_t*)a[1])); }
void o127(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(const zcm::ivec4*)a[0]) / (*(const int32_t*)a[1])); }
void o128(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(const int32_t*)a[0]) + (*(const zcm::ivec4*)a[1])); }
void o129(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(const int32_t*)a[0]) - (*(const zcm::ivec4*)a[1])); }
void o130(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(const int32_t*)a[0]) * (*(const zcm::ivec4*)a[1])); }
void o131(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(const int32_t*)a[0]) / (*(const zcm::ivec4*)a[1])); }
void o132(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2()); }
void o133(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2(*(const float*)a[0])); }
void o134(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2(*(const int32_t*)a[0])); }
void o135(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2(*(const float*)a[0], *(const float*)a[1])); }
void o136(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(zcm::vec2*)a[0])[*(const unsigned*)a[1]]); }
void o137(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0])[*(const unsigned*)a[1]] = *(const float*)a[2]; }
void o138(void* const* a, void* r) { (void)a; (void)r; R(FLOAT, (*(const zcm::vec2*)a[0])[*(const unsigned*)a[1]]); }
void o139(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]) += *(const zcm::vec2*)a[1]; }
void o140(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]) -= *(const zcm::vec2*)a[1]; }
void o141(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]) *= *(const zcm::vec2*)a[1]; }
void o142(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]) /= *(const zcm::vec2*)a[1]; }
void o143(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]) += *(const float*)a[1]; }
void o144(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]) -= *(const float*)a[1]; }
void o145(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]) *= *(const float*)a[1]; }
void o146(void* const* a, void* r) { (void)a; (void)r; (*(zcm::vec2*)a[0]) /= *(const float*)a[1]; }
void o147(void* const* a, void* r) { (void)a; (void)r; R(VEC2, ++(*(zcm::vec2*)a[0])); }
void o148(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(zcm::vec2*)a[0])++); }
void o149(void* const* a, void* r) { (void)a; (void)r; R(VEC2, --(*(zcm::vec2*)a[0])); }
void o150(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(zcm::vec2*)a[0])--); }
void o151(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec2*)a[0]).xx)); }
void o152(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec2*)a[0]).yx)); }
void o153(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec2*)a[0]).xy)); }
void o154(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::vec2((*(const zcm::vec2*)a[0]).yy)); }
void o155(void* const* a, void* r) { (void)a; (void)r; R(VEC2, zcm::make_vec2((const float*)a[0])); }
void o156(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::vec2*)a[0]) == (*(const zcm::vec2*)a[1])); }
void o157(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::vec2*)a[0]) != (*(const zcm::vec2*)a[1])); }
void o158(void* const* a, void* r) { (void)a; (void)r; R(VEC2, +(*(const zcm::vec2*)a[0])); }
void o159(void* const* a, void* r) { (void)a; (void)r; R(VEC2, -(*(const zcm::vec2*)a[0])); }
void o160(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const zcm::vec2*)a[0]) + (*(const zcm::vec2*)a[1])); }
void o161(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const zcm::vec2*)a[0]) - (*(const zcm::vec2*)a[1])); }
void o162(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const zcm::vec2*)a[0]) * (*(const zcm::vec2*)a[1])); }
void o163(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const zcm::vec2*)a[0]) / (*(const zcm::vec2*)a[1])); }
void o164(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const zcm::vec2*)a[0]) + (*(const float*)a[1])); }
void o165(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const zcm::vec2*)a[0]) - (*(const float*)a[1])); }
void o166(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const zcm::vec2*)a[0]) * (*(const float*)a[1])); }
void o167(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const zcm::vec2*)a[0]) / (*(const float*)a[1])); }
void o168(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const float*)a[0]) * (*(const zcm::vec2*)a[1])); }
void o169(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const float*)a[0]) / (*(const zcm::vec2*)a[1])); }
void o170(void* const* a, void* r) { (void)a; (void)r; R(MAT2, zcm::mat2()); }
void o171(void* const* a, void* r) { (void)a; (void)r; R(MAT2, zcm::mat2(*(const float*)a[0])); }
void o172(void* const* a, void* r) { (void)a; (void)r; R(MAT2, zcm::mat2(*(const float*)a[0], *(const float*)a[1], *(const float*)a[2], *(const float*)a[3])); }
void o173(void* const* a, void* r) { (void)a; (void)r; R(MAT2, zcm::mat2(*(const zcm::vec2*)a[0], *(const zcm::vec2*)a[1])); }
void o174(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(zcm::mat2*)a[0])[*(const unsigned*)a[1]]); }
void o175(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0])[*(const unsigned*)a[1]] = *(const zcm::vec2*)a[2]; }
void o176(void* const* a, void* r) { (void)a; (void)r; R(VEC2, (*(const zcm::mat2*)a[0])[*(const unsigned*)a[1]]); }
void o177(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0]) += *(const zcm::mat2*)a[1]; }
void o178(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0]) -= *(const zcm::mat2*)a[1]; }
void o179(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0]) *= *(const zcm::mat2*)a[1]; }
void o180(void* const* a, void* r) { (void)a; (void)r; (*(zcm::mat2*)a[0]) /= *(const zcm::mat2*)a[1]; }
void o181(void* const* a, void* r) { (void)a; (void)r; R(MAT2, zcm::make_mat2((const float*)a[0])); }
void o182(void* const* a, void* r) { (void)a; (void)r; R(MAT2, -(*(const zcm::mat2*)a[0])); }
void o183(void* const* a, void* r) { (void)a; (void)r; R(MAT2, +(*(const zcm::mat2*)a[0])); }
}
extern const OpDesc zcm_ops_07[] = {
  {"ivec4.yxyz", o0, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxyz", o1, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxyz", o2, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyyz", o3, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyyz", o4, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyyz", o5, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyyz", o6, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzyz", o7, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzyz", o8, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzyz", o9, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzyz", o10, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwyz", o11, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywyz", o12, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwyz", o13, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwyz", o14, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxzz", o15, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxzz", o16, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxzz", o17, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxzz", o18, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyzz", o19, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyzz", o20, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyzz", o21, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyzz", o22, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzzz", o23, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzzz", o24, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzzz", o25, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzzz", o26, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwzz", o27, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywzz", o28, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwzz", o29, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwzz", o30, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxwz", o31, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxwz", o32, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxwz", o33, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxwz", o34, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xywz", o35, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yywz", o36, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zywz", o37, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wywz", o38, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzwz", o39, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzwz", o40, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzwz", o41, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzwz", o42, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwwz", o43, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywwz", o44, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwwz", o45, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwwz", o46, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxxw", o47, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxxw", o48, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxxw", o49, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxxw", o50, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyxw", o51, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyxw", o52, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyxw", o53, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyxw", o54, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzxw", o55, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzxw", o56, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzxw", o57, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzxw", o58, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwxw", o59, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywxw", o60, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwxw", o61, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwxw", o62, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxyw", o63, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxyw", o64, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxyw", o65, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxyw", o66, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyyw", o67, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyyw", o68, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyyw", o69, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyyw", o70, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzyw", o71, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzyw", o72, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzyw", o73, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzyw", o74, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwyw", o75, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywyw", o76, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwyw", o77, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwyw", o78, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxzw", o79, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxzw", o80, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxzw", o81, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxzw", o82, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyzw", o83, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyzw", o84, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyzw", o85, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyzw", o86, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzzw", o87, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzzw", o88, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzzw", o89, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzzw", o90, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwzw", o91, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywzw", o92, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwzw", o93, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwzw", o94, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxww", o95, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxww", o96, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxww", o97, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxww", o98, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyww", o99, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyww", o100, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyww", o101, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyww", o102, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzww", o103, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzww", o104, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzww", o105, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzww", o106, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwww", o107, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywww", o108, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwww", o109, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwww", o110, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"make_ivec4(intptr)", o111, T_IVEC4, 1, {{T_INT, 1, D_ARR, 4}}, -1, 0},
  {"operator==(ivec4,ivec4)", o112, T_BOOL, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator!=(ivec4,ivec4)", o113, T_BOOL, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator<(ivec4,ivec4)", o114, T_BOOL, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator<=(ivec4,ivec4)", o115, T_BOOL, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator>(ivec4,ivec4)", o116, T_BOOL, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator>=(ivec4,ivec4)", o117, T_BOOL, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator-(ivec4)", o118, T_IVEC4, 1, {{T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator+(ivec4)", o119, T_IVEC4, 1, {{T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator+(ivec4,ivec4)", o120, T_IVEC4, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator-(ivec4,ivec4)", o121, T_IVEC4, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator*(ivec4,ivec4)", o122, T_IVEC4, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator/(ivec4,ivec4)", o123, T_IVEC4, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_IVEC4, 0, D_NZ, 0}}, -1, 0},
  {"operator+(ivec4,int)", o124, T_IVEC4, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator-(ivec4,int)", o125, T_IVEC4, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator*(ivec4,int)", o126, T_IVEC4, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator/(ivec4,int)", o127, T_IVEC4, 2, {{T_IVEC4, 0, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, -1, 0},
  {"operator+(int,ivec4)", o128, T_IVEC4, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator-(int,ivec4)", o129, T_IVEC4, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator*(int,ivec4)", o130, T_IVEC4, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"operator/(int,ivec4)", o131, T_IVEC4, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC4, 0, D_NZ, 0}}, -1, 0},
  {"vec2::vec2()", o132, T_VEC2, 0, {}, -1, 0},
  {"vec2::vec2(float)", o133, T_VEC2, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec2::vec2(int)", o134, T_VEC2, 1, {{T_INT, 0, D_ANY, 0}}, -1, 0},
  {"vec2::vec2(float,float)", o135, T_VEC2, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec2::operator[] read", o136, T_FLOAT, 2, {{T_VEC2, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 2}}, -1, 0},
  {"vec2::operator[] write", o137, T_VOID, 3, {{T_VEC2, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 2}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"const vec2::operator[]", o138, T_FLOAT, 2, {{T_VEC2, 1, D_ANY, 0}, {T_UINT, 0, D_IDX, 2}}, -1, 0},
  {"vec2::operator+=(vec2)", o139, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"vec2::operator-=(vec2)", o140, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"vec2::operator*=(vec2)", o141, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"vec2::operator/=(vec2)", o142, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"vec2::operator+=(float)", o143, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec2::operator-=(float)", o144, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec2::operator*=(float)", o145, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec2::operator/=(float)", o146, T_VOID, 2, {{T_VEC2, 2, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"vec2::operator++()", o147, T_VEC2, 1, {{T_VEC2, 2, D_ANY, 0}}, -1, 0},
  {"vec2::operator++(int)", o148, T_VEC2, 1, {{T_VEC2, 2, D_ANY, 0}}, -1, 0},
  {"vec2::operator--()", o149, T_VEC2, 1, {{T_VEC2, 2, D_ANY, 0}}, -1, 0},
  {"vec2::operator--(int)", o150, T_VEC2, 1, {{T_VEC2, 2, D_ANY, 0}}, -1, 0},
  {"vec2.xx", o151, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"vec2.yx", o152, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"vec2.xy", o153, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"vec2.yy", o154, T_VEC2, 1, {{T_VEC2, 1, D_ANY, 0}}, -1, 0},
  {"make_vec2(floatptr)", o155, T_VEC2, 1, {{T_FLOAT, 1, D_ARR, 2}}, -1, 0},
  {"operator==(vec2,vec2)", o156, T_BOOL, 2, {{T_VEC2, 0, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator!=(vec2,vec2)", o157, T_BOOL, 2, {{T_VEC2, 0, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator+(vec2)", o158, T_VEC2, 1, {{T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator-(vec2)", o159, T_VEC2, 1, {{T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator+(vec2,vec2)", o160, T_VEC2, 2, {{T_VEC2, 0, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator-(vec2,vec2)", o161, T_VEC2, 2, {{T_VEC2, 0, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator*(vec2,vec2)", o162, T_VEC2, 2, {{T_VEC2, 0, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator/(vec2,vec2)", o163, T_VEC2, 2, {{T_VEC2, 0, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator+(vec2,float)", o164, T_VEC2, 2, {{T_VEC2, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator-(vec2,float)", o165, T_VEC2, 2, {{T_VEC2, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator*(vec2,float)", o166, T_VEC2, 2, {{T_VEC2, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator/(vec2,float)", o167, T_VEC2, 2, {{T_VEC2, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"operator*(float,vec2)", o168, T_VEC2, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator/(float,vec2)", o169, T_VEC2, 2, {{T_FLOAT, 0, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"mat2::mat2()", o170, T_MAT2, 0, {}, -1, 0},
  {"mat2::mat2(float)", o171, T_MAT2, 1, {{T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"mat2::mat2(float,float,float,float)", o172, T_MAT2, 4, {{T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}, {T_FLOAT, 0, D_ANY, 0}}, -1, 0},
  {"mat2::mat2(vec2,vec2)", o173, T_MAT2, 2, {{T_VEC2, 0, D_ANY, 0}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"mat2::operator[] read", o174, T_VEC2, 2, {{T_MAT2, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 2}}, -1, 0},
  {"mat2::operator[] write", o175, T_VOID, 3, {{T_MAT2, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 2}, {T_VEC2, 0, D_ANY, 0}}, -1, 0},
  {"const mat2::operator[]", o176, T_VEC2, 2, {{T_MAT2, 1, D_ANY, 0}, {T_UINT, 0, D_IDX, 2}}, -1, 0},
  {"mat2::operator+=(mat2)", o177, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"mat2::operator-=(mat2)", o178, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"mat2::operator*=(mat2)", o179, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"mat2::operator/=(mat2)", o180, T_VOID, 2, {{T_MAT2, 2, D_ANY, 0}, {T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"make_mat2(floatptr)", o181, T_MAT2, 1, {{T_FLOAT, 1, D_ARR, 4}}, -1, 0},
  {"operator-(mat2)", o182, T_MAT2, 1, {{T_MAT2, 1, D_ANY, 0}}, -1, 0},
  {"operator+(mat2)", o183, T_MAT2, 1, {{T_MAT2, 1, D_ANY, 0}}, -1, 0},
};
extern const unsigned zcm_nops_07 = 184;
