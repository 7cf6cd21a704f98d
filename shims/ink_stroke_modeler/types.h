#pragma once
namespace ink { namespace stroke_model {
struct Vec2 { float x = 0, y = 0; };
class Duration { double v_ = 0; public: Duration() = default; explicit constexpr Duration(double v) : v_(v) {} double Value() const { return v_; } };
class Time { double v_ = 0; public: Time() = default; explicit constexpr Time(double v) : v_(v) {} double Value() const { return v_; } };
struct Input { enum class EventType { kDown, kMove, kUp }; EventType event_type; Vec2 position; Time time; float pressure = -1, tilt = -1, orientation = -1; };
struct Result { Vec2 position, velocity, acceleration; Time time{0}; float pressure = -1, tilt = -1, orientation = -1; };
}}
