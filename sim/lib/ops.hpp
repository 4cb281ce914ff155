// The operation table shared by the generated wrappers (inside the simulated library
// image) and the simulator.
#pragma once
#include <stdint.h>
enum Ty : uint8_t { T_VOID, T_FLOAT, T_INT, T_UINT, T_BOOL, T_U64, T_VEC2, T_VEC3, T_VEC4, T_IVEC2, T_IVEC3, T_IVEC4,
                    T_BVEC2, T_BVEC3, T_BVEC4, T_MAT2, T_MAT3, T_MAT4, T_QUAT, T_COUNT };
enum Mode : uint8_t { M_VAL = 0, M_CONST = 1, M_INOUT = 2, M_OUT = 3 };
enum Dom : uint8_t { D_ANY, D_NZ, D_SHIFT, D_NNEG, D_UNIT, D_POS, D_IDX, D_ARR };
struct ArgDesc { Ty ty; uint8_t mode; Dom dom; uint8_t domn; };
struct OpDesc {
    const char* name;
    void (*fn)(void* const* a, void* r);
    Ty ret;
    uint8_t nargs;
    ArgDesc arg[16];
    int16_t comp_off, comp_len;   // component mutators: the bytes of arg 0 they own
};
