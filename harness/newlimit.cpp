// operator new of libasan ends the process when it fails, whatever its options
// say.  This one, loaded before it, fails like the real one for huge sizes.
#include <cstddef>
#include <dlfcn.h>
#include <new>

static const std::size_t LIMIT = std::size_t(3) << 30;

template <typename F>
static F next(F& f, const char* name)
{
  if (!f) {
    f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
  }
  return f;
}

using New = void* (*)(std::size_t);
static New realNew, realNewArray;

void* operator new(std::size_t n)
{
  if (n > LIMIT) {
    throw std::bad_alloc();
  }
  return next(realNew, "_Znwm")(n);
}

void* operator new[](std::size_t n)
{
  if (n > LIMIT) {
    throw std::bad_alloc();
  }
  return next(realNewArray, "_Znam")(n);
}
