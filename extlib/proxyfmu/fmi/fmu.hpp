#pragma once
#include <proxyfmu/fmi/slave.hpp>
#include <memory>
namespace proxyfmu::fmi
{
class fmu
{
public:
    virtual const model_description& get_model_description() const = 0;
    virtual std::unique_ptr<slave> new_instance(const std::string& name) = 0;
    virtual ~fmu() = default;
};
}
