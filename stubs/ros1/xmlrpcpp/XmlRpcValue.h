// Environment model of xmlrpcpp's value (ROS Noetic): conversions to a type other than the stored one throw, an
// invalid value takes the type asked for, missing members and elements read through a non-const value are created,
// and an array read past its end through a const value throws.
#pragma once
#include <ctime>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <xmlrpcpp/XmlRpcException.h>
namespace XmlRpc {
class XmlRpcValue {
public:
  enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
  typedef std::vector<char> BinaryData;
  typedef std::vector<XmlRpcValue> ValueArray;
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef ValueStruct::iterator iterator;
  typedef ValueStruct::const_iterator const_iterator;
  XmlRpcValue() {}
  XmlRpcValue(bool v) : t_(TypeBoolean), b_(v) {}
  XmlRpcValue(int v) : t_(TypeInt), i_(v) {}
  XmlRpcValue(double v) : t_(TypeDouble), d_(v) {}
  XmlRpcValue(const std::string& v) : t_(TypeString), s_(v) {}
  XmlRpcValue(const char* v) : t_(TypeString), s_(v) {}
  Type getType() const { return t_; }
  bool valid() const { return t_ != TypeInvalid; }
  void clear() { *this = XmlRpcValue(); }
  operator bool&() { as(TypeBoolean); return b_; }
  operator int&() { as(TypeInt); return i_; }
  operator double&() { as(TypeDouble); return d_; }
  operator std::string&() { as(TypeString); return s_; }
  operator const bool&() const { is(TypeBoolean); return b_; }
  operator const int&() const { is(TypeInt); return i_; }
  operator const double&() const { is(TypeDouble); return d_; }
  operator const std::string&() const { is(TypeString); return s_; }
  const XmlRpcValue& operator[](int i) const { is(TypeArray); if (i < 0 || i >= (int)a_.size()) throw XmlRpcException("range error: array index too large"); return a_[i]; }
  XmlRpcValue& operator[](int i) { if (t_ == TypeInvalid) t_ = TypeArray; as(TypeArray); if (i >= (int)a_.size()) a_.resize(i + 1); return a_[i]; }
  XmlRpcValue& operator[](const std::string& k) { as(TypeStruct); return m_[k]; }
  XmlRpcValue& operator[](const char* k) { return (*this)[std::string(k)]; }
  iterator begin() { is(TypeStruct); return m_.begin(); }
  iterator end() { is(TypeStruct); return m_.end(); }
  const_iterator begin() const { is(TypeStruct); return m_.begin(); }
  const_iterator end() const { is(TypeStruct); return m_.end(); }
  int size() const { switch (t_) { case TypeString: return s_.size(); case TypeArray: return a_.size(); case TypeStruct: return m_.size(); default: throw XmlRpcException("type error"); } }
  bool hasMember(const std::string& k) const { return t_ == TypeStruct && m_.find(k) != m_.end(); }
  void setSize(int n) { if (t_ == TypeInvalid) t_ = TypeArray; as(TypeArray); a_.resize(n); }
private:
  void as(Type t) { if (t_ == TypeInvalid) t_ = t; else is(t); }
  void is(Type t) const { if (t_ != t) throw XmlRpcException("type error"); }
  Type t_ = TypeInvalid; bool b_ = false; int i_ = 0; double d_ = 0; std::string s_; ValueArray a_; ValueStruct m_;
};
inline std::ostream& operator<<(std::ostream& o, const XmlRpcValue& v) { return o << "value of type " << v.getType(); }
}
