#pragma once
// Logging is dropped; the logged expressions are still evaluated.
namespace boost { namespace log {
struct null_record { template<class T> null_record& operator<<(const T&) { return *this; } };
namespace trivial { enum severity_level { trace, debug, info, warning, error, fatal }; struct severity_type {}; const severity_type severity{}; }
namespace sources { template<class L> struct severity_logger_mt { severity_logger_mt() {} template<class X> explicit severity_logger_mt(const X&) {} }; template<class L> struct severity_logger { template<class X> explicit severity_logger(const X&) {} }; }
}}
#define BOOST_LOG_SEV(lg, lvl) (::boost::log::null_record())
#define BOOST_LOG_TRIVIAL(lvl) (::boost::log::null_record())
#define BOOST_LOG(lg) (::boost::log::null_record())
