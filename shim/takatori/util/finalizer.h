#pragma once
#include <functional>
#include <utility>
namespace takatori::util {
class finalizer {
public:
    using callback_type = std::function<void()>;
    finalizer() noexcept = default;
    explicit finalizer(callback_type f) noexcept : f_ { std::move(f) } {}
    ~finalizer() { invoke(); }
    finalizer(finalizer const&) = delete;
    finalizer& operator=(finalizer const&) = delete;
    finalizer(finalizer&& o) noexcept : f_ { std::move(o.f_) } { o.f_ = nullptr; }
    finalizer& operator=(finalizer&& o) noexcept { if (this != &o) { invoke(); f_ = std::move(o.f_); o.f_ = nullptr; } return *this; }
    bool operator()() { return invoke(); }
    bool invoke() { if (f_) { auto f = std::move(f_); f_ = nullptr; f(); return true; } return false; }
    void cancel() noexcept { f_ = nullptr; }
    void release() noexcept { f_ = nullptr; }
    explicit operator bool() const noexcept { return static_cast<bool>(f_); }
private:
    callback_type f_ {};
};
} // namespace takatori::util
