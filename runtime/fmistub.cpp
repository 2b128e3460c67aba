// The FMI importer needs FMI Library, which is not part of this build; native links that pull in code that
// refers to it use these definitions unless the harness provides its own.
#include <cosim/fmi/fmu.hpp>
#include <cosim/fmi/importer.hpp>
#include <stdexcept>
namespace cosim
{
namespace fmi
{
__attribute__((weak)) std::shared_ptr<importer> importer::create(std::shared_ptr<file_cache>) { return nullptr; }
__attribute__((weak)) std::shared_ptr<fmu> importer::import(const cosim::filesystem::path&) { throw std::runtime_error("no FMI support"); }
}
}
