#include <drjit-core/jit.h>
#include <drjit-core/array.h>
#include <cstdio>
using namespace drjit;
using F=LLVMArray<float>;
int main(){ jit_init(1u<<(int)JitBackend::LLVM); jit_init_async(0);
  { F a=arange<F>(10); F b=a+F(1.f)*a; printf("%s\n", b.str()); }
  jit_shutdown(0); }
