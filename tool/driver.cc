// Instantiates the header-only parts so that the exporter sees their bodies.
#include "signal_tl/signal_tl.hpp"
#include "signal_tl/fmt.hpp"

namespace stl_driver {
template <typename T>
std::string show(const T& x) { return fmt::to_string(x); }
template std::string show(const signal_tl::signal::Sample&);
template std::string show(const signal_tl::signal::Signal&);
template std::string show(const signal_tl::ast::Expr&);
}
