// generated by tools/genops.py from the public headers; do not edit
#include <stddef.h>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/fwd.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

#include <new>
#include <functional>
#include "ops.hpp"
#define R(T, ...) new (r) CT_##T(__VA_ARGS__)
typedef float CT_FLOAT;
typedef int32_t CT_INT;
typedef unsigned CT_UINT;
typedef bool CT_BOOL;
typedef size_t CT_U64;
typedef zcm::vec2 CT_VEC2;
typedef zcm::vec3 CT_VEC3;
typedef zcm::vec4 CT_VEC4;
typedef zcm::ivec2 CT_IVEC2;
typedef zcm::ivec3 CT_IVEC3;
typedef zcm::ivec4 CT_IVEC4;
typedef zcm::bvec2 CT_BVEC2;
typedef zcm::bvec3 CT_BVEC3;
typedef zcm::bvec4 CT_BVEC4;
typedef zcm::mat2 CT_MAT2;
typedef zcm::mat3 CT_MAT3;
typedef zcm::mat4 CT_MAT4;
typedef zcm::quat CT_QUAT;
namespace {
void o0(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).yzy)); }
void o1(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zzy)); }
void o2(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wzy)); }
void o3(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xwy)); }
void o4(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).ywy)); }
void o5(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zwy)); }
void o6(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wwy)); }
void o7(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xxz)); }
void o8(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).yxz)); }
void o9(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zxz)); }
void o10(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wxz)); }
void o11(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xyz)); }
void o12(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).yyz)); }
void o13(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zyz)); }
void o14(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wyz)); }
void o15(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xzz)); }
void o16(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).yzz)); }
void o17(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zzz)); }
void o18(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wzz)); }
void o19(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xwz)); }
void o20(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).ywz)); }
void o21(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zwz)); }
void o22(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wwz)); }
void o23(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xxw)); }
void o24(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).yxw)); }
void o25(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zxw)); }
void o26(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wxw)); }
void o27(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xyw)); }
void o28(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).yyw)); }
void o29(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zyw)); }
void o30(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wyw)); }
void o31(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xzw)); }
void o32(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).yzw)); }
void o33(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zzw)); }
void o34(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wzw)); }
void o35(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xww)); }
void o36(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).yww)); }
void o37(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zww)); }
void o38(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).www)); }
void o39(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxxx)); }
void o40(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxxx)); }
void o41(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxxx)); }
void o42(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxxx)); }
void o43(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xyxx)); }
void o44(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yyxx)); }
void o45(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zyxx)); }
void o46(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wyxx)); }
void o47(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzxx)); }
void o48(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzxx)); }
void o49(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzxx)); }
void o50(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzxx)); }
void o51(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwxx)); }
void o52(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywxx)); }
void o53(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwxx)); }
void o54(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwxx)); }
void o55(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxyx)); }
void o56(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxyx)); }
void o57(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxyx)); }
void o58(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxyx)); }
void o59(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xyyx)); }
void o60(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yyyx)); }
void o61(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zyyx)); }
void o62(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wyyx)); }
void o63(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzyx)); }
void o64(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzyx)); }
void o65(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzyx)); }
void o66(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzyx)); }
void o67(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwyx)); }
void o68(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywyx)); }
void o69(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwyx)); }
void o70(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwyx)); }
void o71(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxzx)); }
void o72(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxzx)); }
void o73(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxzx)); }
void o74(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxzx)); }
void o75(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xyzx)); }
void o76(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yyzx)); }
void o77(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zyzx)); }
void o78(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wyzx)); }
void o79(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzzx)); }
void o80(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzzx)); }
void o81(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzzx)); }
void o82(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzzx)); }
void o83(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwzx)); }
void o84(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywzx)); }
void o85(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwzx)); }
void o86(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwzx)); }
void o87(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxwx)); }
void o88(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxwx)); }
void o89(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxwx)); }
void o90(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxwx)); }
void o91(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xywx)); }
void o92(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yywx)); }
void o93(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zywx)); }
void o94(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wywx)); }
void o95(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzwx)); }
void o96(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzwx)); }
void o97(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzwx)); }
void o98(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzwx)); }
void o99(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwwx)); }
void o100(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywwx)); }
void o101(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwwx)); }
void o102(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwwx)); }
void o103(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxxy)); }
void o104(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxxy)); }
void o105(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxxy)); }
void o106(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxxy)); }
void o107(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xyxy)); }
void o108(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yyxy)); }
void o109(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zyxy)); }
void o110(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wyxy)); }
void o111(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzxy)); }
void o112(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzxy)); }
void o113(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzxy)); }
void o114(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzxy)); }
void o115(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwxy)); }
void o116(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywxy)); }
void o117(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwxy)); }
void o118(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwxy)); }
void o119(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxyy)); }
void o120(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxyy)); }
void o121(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxyy)); }
void o122(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxyy)); }
void o123(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xyyy)); }
void o124(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yyyy)); }
void o125(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zyyy)); }
void o126(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wyyy)); }
void o127(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzyy)); }
void o128(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzyy)); }
void o129(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzyy)); }
void o130(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzyy)); }
void o131(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwyy)); }
void o132(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywyy)); }
void o133(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwyy)); }
void o134(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwyy)); }
void o135(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxzy)); }
void o136(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxzy)); }
void o137(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxzy)); }
void o138(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxzy)); }
void o139(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xyzy)); }
void o140(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yyzy)); }
void o141(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zyzy)); }
void o142(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wyzy)); }
void o143(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzzy)); }
void o144(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzzy)); }
void o145(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzzy)); }
void o146(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzzy)); }
void o147(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwzy)); }
void o148(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywzy)); }
void o149(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwzy)); }
void o150(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwzy)); }
void o151(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxwy)); }
void o152(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxwy)); }
void o153(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxwy)); }
void o154(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxwy)); }
void o155(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xywy)); }
void o156(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yywy)); }
void o157(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zywy)); }
void o158(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wywy)); }
void o159(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzwy)); }
void o160(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzwy)); }
void o161(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzwy)); }
void o162(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzwy)); }
void o163(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwwy)); }
void o164(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywwy)); }
void o165(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwwy)); }
void o166(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwwy)); }
void o167(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxxz)); }
void o168(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yxxz)); }
void o169(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zxxz)); }
void o170(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wxxz)); }
void o171(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xyxz)); }
void o172(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yyxz)); }
void o173(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zyxz)); }
void o174(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wyxz)); }
void o175(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xzxz)); }
void o176(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).yzxz)); }
void o177(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zzxz)); }
void o178(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wzxz)); }
void o179(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xwxz)); }
void o180(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).ywxz)); }
void o181(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).zwxz)); }
void o182(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).wwxz)); }
void o183(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4((*(const zcm::ivec4*)a[0]).xxyz)); }
}
extern const OpDesc zcm_ops_06[] = {
  {"ivec4.yzy", o0, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzy", o1, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzy", o2, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwy", o3, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywy", o4, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwy", o5, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwy", o6, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxz", o7, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxz", o8, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxz", o9, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxz", o10, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyz", o11, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyz", o12, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyz", o13, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyz", o14, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzz", o15, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzz", o16, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzz", o17, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzz", o18, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwz", o19, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywz", o20, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwz", o21, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwz", o22, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxw", o23, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxw", o24, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxw", o25, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxw", o26, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyw", o27, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyw", o28, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyw", o29, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyw", o30, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzw", o31, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzw", o32, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzw", o33, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzw", o34, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xww", o35, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yww", o36, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zww", o37, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.www", o38, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxxx", o39, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxxx", o40, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxxx", o41, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxxx", o42, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyxx", o43, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyxx", o44, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyxx", o45, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyxx", o46, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzxx", o47, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzxx", o48, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzxx", o49, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzxx", o50, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwxx", o51, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywxx", o52, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwxx", o53, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwxx", o54, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxyx", o55, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxyx", o56, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxyx", o57, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxyx", o58, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyyx", o59, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyyx", o60, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyyx", o61, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyyx", o62, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzyx", o63, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzyx", o64, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzyx", o65, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzyx", o66, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwyx", o67, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywyx", o68, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwyx", o69, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwyx", o70, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxzx", o71, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxzx", o72, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxzx", o73, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxzx", o74, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyzx", o75, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyzx", o76, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyzx", o77, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyzx", o78, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzzx", o79, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzzx", o80, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzzx", o81, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzzx", o82, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwzx", o83, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywzx", o84, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwzx", o85, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwzx", o86, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxwx", o87, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxwx", o88, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxwx", o89, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxwx", o90, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xywx", o91, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yywx", o92, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zywx", o93, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wywx", o94, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzwx", o95, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzwx", o96, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzwx", o97, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzwx", o98, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwwx", o99, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywwx", o100, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwwx", o101, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwwx", o102, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxxy", o103, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxxy", o104, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxxy", o105, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxxy", o106, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyxy", o107, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyxy", o108, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyxy", o109, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyxy", o110, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzxy", o111, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzxy", o112, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzxy", o113, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzxy", o114, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwxy", o115, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywxy", o116, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwxy", o117, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwxy", o118, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxyy", o119, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxyy", o120, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxyy", o121, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxyy", o122, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyyy", o123, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyyy", o124, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyyy", o125, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyyy", o126, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzyy", o127, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzyy", o128, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzyy", o129, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzyy", o130, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwyy", o131, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywyy", o132, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwyy", o133, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwyy", o134, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxzy", o135, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxzy", o136, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxzy", o137, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxzy", o138, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyzy", o139, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyzy", o140, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyzy", o141, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyzy", o142, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzzy", o143, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzzy", o144, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzzy", o145, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzzy", o146, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwzy", o147, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywzy", o148, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwzy", o149, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwzy", o150, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxwy", o151, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxwy", o152, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxwy", o153, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxwy", o154, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xywy", o155, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yywy", o156, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zywy", o157, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wywy", o158, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzwy", o159, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzwy", o160, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzwy", o161, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzwy", o162, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwwy", o163, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywwy", o164, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwwy", o165, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwwy", o166, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxxz", o167, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxxz", o168, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxxz", o169, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxxz", o170, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyxz", o171, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyxz", o172, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyxz", o173, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyxz", o174, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzxz", o175, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzxz", o176, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzxz", o177, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzxz", o178, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwxz", o179, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywxz", o180, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwxz", o181, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwxz", o182, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxyz", o183, T_IVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
};
extern const unsigned zcm_nops_06 = 184;
