#include "engine.hpp"
bool emitReplay(llvm::Module& M, Engine& e, Violation const& v, std::string const& base)
{
    return false;
}
