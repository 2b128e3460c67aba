#pragma once
#include <string>
namespace proxyfmu
{
class remote_info
{
public:
    remote_info(std::string host, int port) : host_(std::move(host)), port_(port) { }
    std::string host() const { return host_; }
    int port() const { return port_; }

private:
    std::string host_;
    int port_;
};
}
