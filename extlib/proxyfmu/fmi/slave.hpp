// The part of proxyfmu's interface that src/cosim/proxy uses, so that those sources can be compiled and checked
// here: proxyfmu itself is not installed. It is inferred from its use in src/cosim/proxy and tests/.
#pragma once
#include <optional>
#include <string>
#include <memory>
#include <variant>
#include <vector>
namespace proxyfmu::fmi
{
using value_ref = unsigned int;
struct integer { std::optional<int> start; };
struct real { std::optional<double> start; };
struct string { std::optional<std::string> start; };
struct boolean { std::optional<bool> start; };
struct enumeration { };
using type_attribute = std::variant<integer, real, string, boolean, enumeration>;
struct scalar_variable
{
    value_ref vr;
    std::string name, description, causality, variability;
    type_attribute typeAttribute;
    bool is_integer() const { return typeAttribute.index() == 0; }
    bool is_real() const { return typeAttribute.index() == 1; }
    bool is_string() const { return typeAttribute.index() == 2; }
    bool is_boolean() const { return typeAttribute.index() == 3; }
};
struct model_description
{
    std::string guid, modelName, description, author;
    std::vector<scalar_variable> modelVariables;
};
class slave
{
public:
    virtual bool setup_experiment(double start = 0, double stop = 0, double tolerance = 0) = 0;
    virtual bool enter_initialization_mode() = 0;
    virtual bool exit_initialization_mode() = 0;
    virtual bool step(double currentTime, double stepSize) = 0;
    virtual bool terminate() = 0;
    virtual void freeInstance() = 0;
    virtual bool get_integer(const std::vector<value_ref>&, std::vector<int>&) = 0;
    virtual bool get_real(const std::vector<value_ref>&, std::vector<double>&) = 0;
    virtual bool get_string(const std::vector<value_ref>&, std::vector<std::string>&) = 0;
    virtual bool get_boolean(const std::vector<value_ref>&, std::vector<bool>&) = 0;
    virtual bool set_integer(const std::vector<value_ref>&, const std::vector<int>&) = 0;
    virtual bool set_real(const std::vector<value_ref>&, const std::vector<double>&) = 0;
    virtual bool set_string(const std::vector<value_ref>&, const std::vector<std::string>&) = 0;
    virtual bool set_boolean(const std::vector<value_ref>&, const std::vector<bool>&) = 0;
    virtual ~slave() = default;
};
}
