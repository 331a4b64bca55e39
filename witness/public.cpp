// every public header, as an application sees them: the declared interface does not depend on build options
#include <drjit-core/macros.h>
#include <drjit-core/jit.h>
#include <drjit-core/array.h>
#include <drjit-core/gl_interop.h>
#include <drjit-core/half.h>
#include <drjit-core/hash.h>
#include <drjit-core/intrin.h>
#include <drjit-core/metal.h>
#include <drjit-core/nanostl.h>
#include <drjit-core/optix.h>
#include <drjit-core/texture.h>
#include <drjit-core/traits.h>
