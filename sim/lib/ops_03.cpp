// generated by tools/genops.py from the public headers; do not edit
#include <stddef.h>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/fwd.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

#include <new>
#include <functional>
#include "ops.hpp"
#define R(T, ...) new (r) CT_##T(__VA_ARGS__)
typedef float CT_FLOAT;
typedef int32_t CT_INT;
typedef unsigned CT_UINT;
typedef bool CT_BOOL;
typedef size_t CT_U64;
typedef zcm::vec2 CT_VEC2;
typedef zcm::vec3 CT_VEC3;
typedef zcm::vec4 CT_VEC4;
typedef zcm::ivec2 CT_IVEC2;
typedef zcm::ivec3 CT_IVEC3;
typedef zcm::ivec4 CT_IVEC4;
typedef zcm::bvec2 CT_BVEC2;
typedef zcm::bvec3 CT_BVEC3;
typedef zcm::bvec4 CT_BVEC4;
typedef zcm::mat2 CT_MAT2;
typedef zcm::mat3 CT_MAT3;
typedef zcm::mat4 CT_MAT4;
typedef zcm::quat CT_QUAT;
namespace {
void o0(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwxx)); }
void o1(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxyx)); }
void o2(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxyx)); }
void o3(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxyx)); }
void o4(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxyx)); }
void o5(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xyyx)); }
void o6(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yyyx)); }
void o7(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zyyx)); }
void o8(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wyyx)); }
void o9(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzyx)); }
void o10(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzyx)); }
void o11(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzyx)); }
void o12(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzyx)); }
void o13(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwyx)); }
void o14(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywyx)); }
void o15(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwyx)); }
void o16(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwyx)); }
void o17(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxzx)); }
void o18(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxzx)); }
void o19(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxzx)); }
void o20(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxzx)); }
void o21(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xyzx)); }
void o22(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yyzx)); }
void o23(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zyzx)); }
void o24(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wyzx)); }
void o25(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzzx)); }
void o26(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzzx)); }
void o27(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzzx)); }
void o28(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzzx)); }
void o29(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwzx)); }
void o30(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywzx)); }
void o31(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwzx)); }
void o32(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwzx)); }
void o33(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxwx)); }
void o34(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxwx)); }
void o35(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxwx)); }
void o36(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxwx)); }
void o37(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xywx)); }
void o38(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yywx)); }
void o39(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zywx)); }
void o40(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wywx)); }
void o41(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzwx)); }
void o42(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzwx)); }
void o43(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzwx)); }
void o44(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzwx)); }
void o45(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwwx)); }
void o46(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywwx)); }
void o47(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwwx)); }
void o48(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwwx)); }
void o49(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxxy)); }
void o50(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxxy)); }
void o51(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxxy)); }
void o52(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxxy)); }
void o53(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xyxy)); }
void o54(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yyxy)); }
void o55(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zyxy)); }
void o56(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wyxy)); }
void o57(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzxy)); }
void o58(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzxy)); }
void o59(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzxy)); }
void o60(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzxy)); }
void o61(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwxy)); }
void o62(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywxy)); }
void o63(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwxy)); }
void o64(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwxy)); }
void o65(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxyy)); }
void o66(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxyy)); }
void o67(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxyy)); }
void o68(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxyy)); }
void o69(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xyyy)); }
void o70(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yyyy)); }
void o71(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zyyy)); }
void o72(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wyyy)); }
void o73(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzyy)); }
void o74(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzyy)); }
void o75(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzyy)); }
void o76(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzyy)); }
void o77(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwyy)); }
void o78(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywyy)); }
void o79(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwyy)); }
void o80(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwyy)); }
void o81(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxzy)); }
void o82(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxzy)); }
void o83(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxzy)); }
void o84(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxzy)); }
void o85(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xyzy)); }
void o86(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yyzy)); }
void o87(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zyzy)); }
void o88(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wyzy)); }
void o89(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzzy)); }
void o90(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzzy)); }
void o91(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzzy)); }
void o92(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzzy)); }
void o93(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwzy)); }
void o94(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywzy)); }
void o95(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwzy)); }
void o96(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwzy)); }
void o97(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxwy)); }
void o98(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxwy)); }
void o99(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxwy)); }
void o100(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxwy)); }
void o101(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xywy)); }
void o102(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yywy)); }
void o103(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zywy)); }
void o104(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wywy)); }
void o105(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzwy)); }
void o106(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzwy)); }
void o107(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzwy)); }
void o108(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzwy)); }
void o109(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwwy)); }
void o110(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywwy)); }
void o111(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwwy)); }
void o112(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwwy)); }
void o113(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxxz)); }
void o114(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxxz)); }
void o115(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxxz)); }
void o116(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxxz)); }
void o117(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xyxz)); }
void o118(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yyxz)); }
void o119(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zyxz)); }
void o120(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wyxz)); }
void o121(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzxz)); }
void o122(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzxz)); }
void o123(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzxz)); }
void o124(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzxz)); }
void o125(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwxz)); }
void o126(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywxz)); }
void o127(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwxz)); }
void o128(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwxz)); }
void o129(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxyz)); }
void o130(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxyz)); }
void o131(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxyz)); }
void o132(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxyz)); }
void o133(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xyyz)); }
void o134(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yyyz)); }
void o135(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zyyz)); }
void o136(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wyyz)); }
void o137(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzyz)); }
void o138(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzyz)); }
void o139(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzyz)); }
void o140(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzyz)); }
void o141(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwyz)); }
void o142(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywyz)); }
void o143(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwyz)); }
void o144(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwyz)); }
void o145(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxzz)); }
void o146(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxzz)); }
void o147(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxzz)); }
void o148(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxzz)); }
void o149(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xyzz)); }
void o150(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yyzz)); }
void o151(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zyzz)); }
void o152(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wyzz)); }
void o153(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzzz)); }
void o154(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzzz)); }
void o155(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzzz)); }
void o156(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzzz)); }
void o157(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwzz)); }
void o158(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywzz)); }
void o159(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwzz)); }
void o160(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwzz)); }
void o161(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxwz)); }
void o162(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxwz)); }
void o163(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxwz)); }
void o164(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxwz)); }
void o165(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xywz)); }
void o166(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yywz)); }
void o167(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zywz)); }
void o168(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wywz)); }
void o169(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xzwz)); }
void o170(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yzwz)); }
void o171(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zzwz)); }
void o172(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wzwz)); }
void o173(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xwwz)); }
void o174(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).ywwz)); }
void o175(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zwwz)); }
void o176(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wwwz)); }
void o177(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xxxw)); }
void o178(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yxxw)); }
void o179(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zxxw)); }
void o180(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).wxxw)); }
void o181(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).xyxw)); }
void o182(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).yyxw)); }
void o183(void* const* a, void* r) { (void)a; (void)r; R(VEC4, zcm::vec4((*(const zcm::vec4*)a[0]).zyxw)); }
}
extern const OpDesc zcm_ops_03[] = {
  {"vec4.wwxx", o0, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxyx", o1, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxyx", o2, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxyx", o3, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxyx", o4, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyyx", o5, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyyx", o6, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyyx", o7, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyyx", o8, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzyx", o9, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzyx", o10, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzyx", o11, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzyx", o12, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwyx", o13, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywyx", o14, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwyx", o15, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwyx", o16, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxzx", o17, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxzx", o18, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxzx", o19, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxzx", o20, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyzx", o21, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyzx", o22, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyzx", o23, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyzx", o24, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzzx", o25, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzzx", o26, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzzx", o27, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzzx", o28, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwzx", o29, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywzx", o30, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwzx", o31, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwzx", o32, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxwx", o33, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxwx", o34, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxwx", o35, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxwx", o36, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xywx", o37, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yywx", o38, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zywx", o39, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wywx", o40, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzwx", o41, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzwx", o42, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzwx", o43, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzwx", o44, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwwx", o45, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywwx", o46, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwwx", o47, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwwx", o48, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxxy", o49, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxxy", o50, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxxy", o51, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxxy", o52, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyxy", o53, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyxy", o54, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyxy", o55, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyxy", o56, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzxy", o57, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzxy", o58, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzxy", o59, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzxy", o60, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwxy", o61, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywxy", o62, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwxy", o63, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwxy", o64, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxyy", o65, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxyy", o66, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxyy", o67, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxyy", o68, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyyy", o69, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyyy", o70, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyyy", o71, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyyy", o72, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzyy", o73, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzyy", o74, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzyy", o75, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzyy", o76, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwyy", o77, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywyy", o78, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwyy", o79, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwyy", o80, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxzy", o81, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxzy", o82, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxzy", o83, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxzy", o84, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyzy", o85, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyzy", o86, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyzy", o87, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyzy", o88, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzzy", o89, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzzy", o90, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzzy", o91, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzzy", o92, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwzy", o93, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywzy", o94, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwzy", o95, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwzy", o96, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxwy", o97, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxwy", o98, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxwy", o99, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxwy", o100, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xywy", o101, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yywy", o102, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zywy", o103, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wywy", o104, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzwy", o105, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzwy", o106, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzwy", o107, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzwy", o108, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwwy", o109, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywwy", o110, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwwy", o111, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwwy", o112, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxxz", o113, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxxz", o114, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxxz", o115, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxxz", o116, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyxz", o117, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyxz", o118, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyxz", o119, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyxz", o120, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzxz", o121, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzxz", o122, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzxz", o123, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzxz", o124, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwxz", o125, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywxz", o126, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwxz", o127, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwxz", o128, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxyz", o129, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxyz", o130, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxyz", o131, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxyz", o132, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyyz", o133, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyyz", o134, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyyz", o135, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyyz", o136, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzyz", o137, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzyz", o138, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzyz", o139, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzyz", o140, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwyz", o141, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywyz", o142, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwyz", o143, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwyz", o144, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxzz", o145, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxzz", o146, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxzz", o147, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxzz", o148, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyzz", o149, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyzz", o150, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyzz", o151, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wyzz", o152, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzzz", o153, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzzz", o154, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzzz", o155, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzzz", o156, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwzz", o157, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywzz", o158, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwzz", o159, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwzz", o160, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxwz", o161, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxwz", o162, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxwz", o163, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxwz", o164, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xywz", o165, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yywz", o166, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zywz", o167, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wywz", o168, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xzwz", o169, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yzwz", o170, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zzwz", o171, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wzwz", o172, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xwwz", o173, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.ywwz", o174, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zwwz", o175, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wwwz", o176, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xxxw", o177, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yxxw", o178, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zxxw", o179, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.wxxw", o180, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.xyxw", o181, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.yyxw", o182, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
  {"vec4.zyxw", o183, T_VEC4, 1, {{T_VEC4, 1, D_ANY, 0}}, -1, 0},
};
extern const unsigned zcm_nops_03 = 184;
