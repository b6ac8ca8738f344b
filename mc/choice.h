// Stateless exploration of choice sequences, bounded by the number of deviations from choice 0.
// explore(k) runs the body once for every choice sequence having at most k non-zero choices.
#pragma once
#include <cstdint>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

class Chooser {
public:
    // pick one of n alternatives, 0 being the default (simplest) one
    int choose(int n) {
        if (n <= 0) throw std::logic_error("empty choice");
        std::size_t i = picked_.size();
        int v = 0;
        if (i < prefix_.size()) {
            v = prefix_[i];
            if (v >= n) throw std::logic_error("diverging replay: choice out of range");
        }
        picked_.push_back(v);
        width_.push_back(n);
        if (on_choice && v != 0) on_choice(picked_);
        return v;
    }
    bool flag() { return choose(2) == 1; }
    std::function<void(std::vector<int> const&)> on_choice; // told about every deviation
    std::vector<int> const& prefix() const { return prefix_; }

    std::vector<int> const& picked() const { return picked_; }
    std::vector<int> const& width() const { return width_; }
    void start(std::vector<int> prefix) {
        prefix_ = std::move(prefix);
        picked_.clear();
        width_.clear();
    }
    bool consumed() const { return picked_.size() >= prefix_.size(); }

private:
    std::vector<int> prefix_, picked_, width_;
};

struct ExploreStats {
    std::uint64_t executions = 0;  // complete choice sequences run
    std::uint64_t choices = 0;     // choice points passed
    std::uint64_t nodes = 0;       // distinct nodes of the choice tree visited
    std::size_t longest = 0;
    bool capped = false;
};

// Explores all sequences with at most `bound` deviations. Work is split over `parts`: sequences with
// fewer deviations than the split depth steer every part and are judged by part 0 only; each deeper
// subtree belongs to exactly one part.
class Explorer {
public:
    explicit Explorer(int bound, int part = 0, int parts = 1) :
        bound_(bound), split_(bound < 2 ? bound : 2), part_(part), parts_(parts) {}
    std::function<bool(Chooser&)> body; // false: stop exploring
    std::uint64_t max_executions = 0;   // 0: unlimited
    ExploreStats stats;
    bool shadow = false; // this execution only steers the split: another part judges it

    void run() { explore({}, 0); }

private:
    int bound_, split_, part_, parts_;
    std::uint64_t unit_ = 0;
    bool stop_ = false;

    void explore(std::vector<int> const& prefix, int used) {
        Chooser c;
        c.start(prefix);
        shadow = used < split_ && part_ != 0;
        if (split_ == 0) shadow = part_ != 0;
        bool ok = body(c);
        if (!c.consumed()) throw std::logic_error("diverging replay: prefix not consumed");
        if (!shadow) {
            ++stats.executions;
            stats.choices += c.picked().size();
            stats.nodes += c.picked().size() - prefix.size() + 1;
            stats.longest = std::max(stats.longest, c.picked().size());
        }
        if (!ok) { stop_ = true; return; }
        if (max_executions && stats.executions >= max_executions) { stop_ = true; stats.capped = true; return; }
        if (used >= bound_) return;
        for (std::size_t i = prefix.size(); i < c.picked().size(); ++i) {
            for (int alt = 1; alt < c.width()[i]; ++alt) {
                if (used + 1 == split_ && (unit_++ % std::uint64_t(parts_)) != std::uint64_t(part_)) continue;
                std::vector<int> p(c.picked().begin(), c.picked().begin() + long(i));
                p.push_back(alt);
                explore(p, used + 1);
                if (stop_) return;
            }
        }
    }
};

} // namespace mc
