// The pyre installed in this sandbox (1.14.0) predates {pyre::tensor::traits::transpose}, which the
// headers of the functions, fields, geometry, mesh, fem, ... modules of mito name. This header
// supplies the missing trait, and nothing else, so that those modules can be compiled here; it is
// force-included ahead of the unmodified mito headers.
#pragma once
#define HAVE_TENSOR
#define HAVE_COMPACT_PACKINGS
#include <pyre/tensor.h>
namespace pyre::tensor::traits {
    template <class T>
    struct transpose {
        using type = decltype(pyre::tensor::transpose(std::declval<T>()));
    };
}
