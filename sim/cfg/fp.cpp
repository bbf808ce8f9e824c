// Self-relative pointers: a pointer copied as bytes, or left unconstructed, points elsewhere.
#include "../alloc.hpp"
#include <boost/interprocess/offset_ptr.hpp>
namespace sim {
template <class T>
struct pick_pointer<T, true> { using type = boost::interprocess::offset_ptr<T>; };
}  // namespace sim
#include "../exec.hpp"
using namespace sim;
using T = Elem<false, 0>; using A = SimAlloc<T, FANCY | POCCA>; SIM_CONFIG(fp, T, A, sizeof(T) * 4, 64)
