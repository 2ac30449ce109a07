// Stand-in for the generated message classes of component_data.proto: plain structures with the generated accessors.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace mpact { namespace sim { namespace proto {
enum SIPrefix : int { PREFIX_NONE = 0, PREFIX_PICO = -12, PREFIX_NANO = -9, PREFIX_MICRO = -6, PREFIX_MILLI = -3, PREFIX_KILO = 3, PREFIX_MEGA = 6, PREFIX_GIGA = 9, PREFIX_TERA = 12 };
enum SIUnit : int { UNIT_NONE = 0, UNIT_SECOND = 1, UNIT_HERTZ = 2, UNIT_VOLT = 3, UNIT_AMPERE = 4, UNIT_WATT = 5 };
class PhysicalValue {
 public:
  double value() const { return v_; } void set_value(double v) { v_ = v; }
  SIPrefix si_prefix() const { return p_; } void set_si_prefix(SIPrefix p) { p_ = p; }
  SIUnit si_unit() const { return u_; } void set_si_unit(SIUnit u) { u_ = u; }
  double v_ = 0; SIPrefix p_ = PREFIX_NONE; SIUnit u_ = UNIT_NONE;
};
class ComponentValueEntry {
 public:
  bool has_name() const { return hn_; } const std::string& name() const { return name_; } void set_name(const std::string& n) { name_ = n; hn_ = true; }
  bool has_about() const { return ha_; } const std::string& about() const { return about_; } void set_about(const std::string& n) { about_ = n; ha_ = true; }
  bool has_bool_value() const { return k_ == 3; } bool bool_value() const { return k_ == 3 && b_; } void set_bool_value(bool v) { k_ = 3; b_ = v; }
  bool has_sint64_value() const { return k_ == 4; } int64_t sint64_value() const { return k_ == 4 ? i_ : 0; } void set_sint64_value(int64_t v) { k_ = 4; i_ = v; }
  bool has_uint64_value() const { return k_ == 5; } uint64_t uint64_value() const { return k_ == 5 ? u_ : 0; } void set_uint64_value(uint64_t v) { k_ = 5; u_ = v; }
  bool has_double_value() const { return k_ == 6; } double double_value() const { return k_ == 6 ? d_ : 0; } void set_double_value(double v) { k_ = 6; d_ = v; }
  bool has_string_value() const { return k_ == 7; } const std::string& string_value() const { return s_; } void set_string_value(const std::string& v) { k_ = 7; s_ = v; }
  bool has_physical_value() const { return k_ == 8; } const PhysicalValue& physical_value() const { return p_; } PhysicalValue* mutable_physical_value() { k_ = 8; return &p_; }
  std::string name_, about_, s_; bool hn_ = false, ha_ = false; int k_ = 0; bool b_ = false; int64_t i_ = 0; uint64_t u_ = 0; double d_ = 0; PhysicalValue p_;
};
class ComponentData {
 public:
  bool has_name() const { return hn_; } const std::string& name() const { return name_; } void set_name(const std::string& n) { name_ = n; hn_ = true; }
  const std::vector<ComponentValueEntry>& configuration() const { return c_; } ComponentValueEntry* add_configuration() { c_.emplace_back(); return &c_.back(); }
  const std::vector<ComponentValueEntry>& statistics() const { return s_; } ComponentValueEntry* add_statistics() { s_.emplace_back(); return &s_.back(); }
  const std::vector<ComponentData>& component_data() const { return d_; } ComponentData* add_component_data() { d_.emplace_back(); return &d_.back(); }
  int configuration_size() const { return c_.size(); } int statistics_size() const { return s_.size(); } int component_data_size() const { return d_.size(); }
  std::string name_; bool hn_ = false; std::vector<ComponentValueEntry> c_, s_; std::vector<ComponentData> d_;
};
}}}  // namespace mpact::sim::proto
