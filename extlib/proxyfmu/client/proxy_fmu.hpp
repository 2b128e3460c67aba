#pragma once
#include <proxyfmu/fmi/fmu.hpp>
#include <proxyfmu/fs_portability.hpp>
#include <proxyfmu/remote_info.hpp>
namespace proxyfmu::client
{
class proxy_fmu : public fmi::fmu
{
public:
    explicit proxy_fmu(const filesystem::path& path, const std::optional<remote_info>& remote = std::nullopt);
    const fmi::model_description& get_model_description() const override;
    std::unique_ptr<fmi::slave> new_instance(const std::string& name) override;

private:
    fmi::model_description description_;
};
}
