// Environment model of plugin loading: the harness makes the instances.
#pragma once
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <memory>
#include <stdexcept>
#include <string>
inline void* (*vp_create)(const std::string& package, const std::string& base, const std::string& type) = nullptr;
namespace pluginlib {
class PluginlibException : public std::runtime_error { public: PluginlibException(const std::string& w) : std::runtime_error(w) {} };
template <class T> class ClassLoader {
public:
  ClassLoader(const std::string& package, const std::string& base) : p_(package), b_(base) {}
  boost::shared_ptr<T> createInstance(const std::string& type) { return boost::shared_ptr<T>(make(type)); }
  std::shared_ptr<T> createUniqueInstance(const std::string& type) { return std::shared_ptr<T>(make(type)); }
private:
  T* make(const std::string& type) { void* o = vp_create(p_, b_, type); if (!o) throw PluginlibException("no class " + type); return static_cast<T*>(o); }
  std::string p_, b_;
};
}
