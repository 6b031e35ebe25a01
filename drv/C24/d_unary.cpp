// Every unary type classification against the standard one, over the type population
#include "d_types.h"

#define R1(tr, ...) { #__VA_ARGS__, #tr, estd::tr<__VA_ARGS__>::value, std::tr<__VA_ARGS__>::value },
#define ROWS(...) \
    R1(is_void, __VA_ARGS__) R1(is_integral, __VA_ARGS__) R1(is_floating_point, __VA_ARGS__) R1(is_arithmetic, __VA_ARGS__) \
    R1(is_signed, __VA_ARGS__) R1(is_unsigned, __VA_ARGS__) R1(is_pointer, __VA_ARGS__) R1(is_reference, __VA_ARGS__) \
    R1(is_lvalue_reference, __VA_ARGS__) R1(is_rvalue_reference, __VA_ARGS__) R1(is_const, __VA_ARGS__) R1(is_volatile, __VA_ARGS__) \
    R1(is_array, __VA_ARGS__) R1(is_enum, __VA_ARGS__) R1(is_union, __VA_ARGS__) R1(is_class, __VA_ARGS__) R1(is_function, __VA_ARGS__) \
    R1(is_member_pointer, __VA_ARGS__) R1(is_member_function_pointer, __VA_ARGS__) R1(is_member_object_pointer, __VA_ARGS__)
#define ROWSX(...) ROWS(__VA_ARGS__)
static constexpr TraitRow table[] = { TY_ALL(ROWSX) };
static constexpr TraitRow table_v[] = { TY_FNV(ROWSX) };

// complete object types only
#define ROWSO(...) R1(is_copy_constructible, __VA_ARGS__) R1(is_move_constructible, __VA_ARGS__) R1(is_nothrow_move_constructible, __VA_ARGS__) \
    R1(is_copy_assignable, __VA_ARGS__) R1(is_move_assignable, __VA_ARGS__) R1(is_trivially_copyable, __VA_ARGS__) R1(is_trivial, __VA_ARGS__) R1(is_empty, __VA_ARGS__)
static constexpr TraitRow table_o[] = { TY_CLS(ROWSO)
    ROWSO(int) ROWSO(const int) ROWSO(int*) ROWSO(int&) ROWSO(void) ROWSO(int[3]) ROWSO(float) ROWSO(ty::F0*) ROWSO(int ty::S1::*) ROWSO(bool) };

template <size_t N> static void walk(vf::Ctx& c, const TraitRow (&t)[N])
{
    c.nt();
    size_t at = c.rng.below(N), n = 1 + c.rng.below(400);
    c.op("rows %zu..+%zu", at, n); c.mark(at * 1000 + n);
    for(size_t i = 0; i < n; i++)
    {
        const TraitRow& r = t[(at + i) % N];
        VF_REQ(r.got == r.want, "%s<%s> is %d, the standard says %d", r.trait, r.type, r.got, r.want);
        if(r.want) VF_EV("positive classifications"); else VF_EV("negative classifications");
    }
    c.state(at / 64);
}

VF_GROUP_W(type_classification, 60) { walk(c, table); VF_EV("walks over all types"); }
VF_GROUP_W(function_classification, 10) { walk(c, table_v); VF_EV("walks over variadic functions"); }
VF_GROUP_W(object_classification, 20) { walk(c, table_o); VF_EV("walks over object properties"); }
