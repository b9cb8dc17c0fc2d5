// Environment model of the ROS parameter server, as seen through a node handle: the harness fills vp_params.
#pragma once
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <ros/console.h>
#include <xmlrpcpp/XmlRpcValue.h>
namespace ros {
class Exception : public std::runtime_error { public: Exception(const std::string& w) : std::runtime_error(w) {} };
class InvalidParameterException : public Exception { public: InvalidParameterException(const std::string& w) : Exception(w) {} };
inline std::map<std::string, XmlRpc::XmlRpcValue> vp_server;   // what every new handle sees
inline std::map<std::string, std::function<bool()>> vp_services;   // services on offer, called by the harness
class ServiceServer { public: std::string name; std::string getService() const { return name; } };
class NodeHandle {
public:
  NodeHandle(const std::string& = "") : vp_params(vp_server) {}
  bool hasParam(const std::string& k) const { return vp_params.count(k); }
  bool getParam(const std::string& k, XmlRpc::XmlRpcValue& v) const { auto i = vp_params.find(k); if (i == vp_params.end()) return false; v = i->second; return true; }
  bool getParam(const std::string& k, std::string& v) const { return typed(k, XmlRpc::XmlRpcValue::TypeString, v); }
  bool getParam(const std::string& k, bool& v) const { return typed(k, XmlRpc::XmlRpcValue::TypeBoolean, v); }
  bool getParam(const std::string& k, int& v) const { double d; if (typed(k, XmlRpc::XmlRpcValue::TypeInt, v)) return true; if (!typed(k, XmlRpc::XmlRpcValue::TypeDouble, d)) return false; v = (int)(d < 0 ? d - 0.5 : d + 0.5); return true; }
  bool getParam(const std::string& k, double& v) const { int i; if (typed(k, XmlRpc::XmlRpcValue::TypeDouble, v)) return true; if (!typed(k, XmlRpc::XmlRpcValue::TypeInt, i)) return false; v = i; return true; }
  template <class T> bool param(const std::string& k, T& v, const T& d) const { if (getParam(k, v)) return true; v = d; return false; }
  template <class T, class Q, class R> ServiceServer advertiseService(const std::string& n, bool (T::*f)(Q&, R&), T* o) { vp_services[n] = [=] { Q q; R r; return (o->*f)(q, r); }; ServiceServer v; v.name = n; return v; }
  std::map<std::string, XmlRpc::XmlRpcValue> vp_params;
private:
  template <class T> bool typed(const std::string& k, XmlRpc::XmlRpcValue::Type t, T& v) const { auto i = vp_params.find(k); if (i == vp_params.end() || i->second.getType() != t) return false; const XmlRpc::XmlRpcValue& x = i->second; v = static_cast<const T&>(x); return true; }
};
}
