// Stand-in for gharveymn/small_vector, which cannot be fetched in the sandbox.
// The solver uses it only as a std::vector with an inline-capacity hint, so a
// class derived from std::vector has the same observable behaviour (the inline
// buffer is a storage optimisation that no solver semantics depends on).
#ifndef VERIF_SHIM_GCH_SMALL_VECTOR_HPP
#define VERIF_SHIM_GCH_SMALL_VECTOR_HPP

#include <cstddef>
#include <vector>

namespace gch
{
    template <typename T_, unsigned inline_capacity_ = 4>
    class small_vector : public std::vector<T_>
    {
    public:
        using std::vector<T_>::vector;
        small_vector() = default;
        small_vector(const small_vector &) = default;
        small_vector(small_vector &&) noexcept = default;
        small_vector & operator=(const small_vector &) = default;
        small_vector & operator=(small_vector &&) noexcept = default;
        using std::vector<T_>::operator=;
    };
}

#endif
