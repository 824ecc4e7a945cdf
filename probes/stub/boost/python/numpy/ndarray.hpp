#include <python_stub.hpp>
