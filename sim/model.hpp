// Models described by plan lines, built twice: out of the real library's blocks (RealModel) and as a small
// executable reference model (Ref).
#pragma once
#include "core.hpp"

#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <set>
#include <streambuf>

#include "src/block/extra/add.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/delay.hpp"
#include "src/block/extra/derivative.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/initial_value.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/so_function.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/sources.hpp"
#include "src/block/extra/subtract.hpp"
#include "src/block/extra/triggered_integrator.hpp"
#include "src/block/integrator.hpp"
#include "src/block/leaf.hpp"
#include "src/block/submodel.hpp"
#include "src/solver/euler.hpp"
#include "src/solver/fast_simulator.hpp"
#include "src/solver/rk4.hpp"
#include "src/solver/rkf45.hpp"
#include "src/solver/simulator.hpp"

namespace sim
{

using Vec = std::vector<double>;

struct BlkSpec
{
    int id{0};
    std::string type;
    std::string ty; // one letter per output: s i b a
    std::vector<int> in, out;
    std::vector<std::string> lab; // bus blocks: label of every in/out pair
    std::vector<std::string> ex;  // bus blocks: excluded labels
    Vec p;
    int fn{0}, sz{1}, parent{-1}, ord{0}, via{0}, late{0};
};
struct SubSpec
{
    int id{0}, parent{-1}, ord{0}, via{0};
};
struct ExtSpec
{
    int id{0};
    char ty{'s'};
    int fn{0}, sz{1}, icb{0};
    Vec p;
};

struct SigInfo
{
    char ty{0};
    int sz{1};
};

struct Spec
{
    std::vector<SubSpec> subs;
    std::vector<BlkSpec> blks;
    std::vector<ExtSpec> exts;
    std::map<int, SigInfo> sigs;
    std::set<int> used; // signals linked by some block
    std::map<int, int> missize; // arrays made with another size than their drivers produce

    // false: not a meaningful model (only after a deletion by the minimiser)
    bool sole{false}; // the only block there is is the model handed to the simulator, no submodel around it
    bool nocb{false}; // the simulator has no input callback; the model's own hook delivers all inputs
    bool parse(const Plan& plan, bool add_missing = true);
    const BlkSpec* producer(int sig) const;
    bool stateful() const;
    char in_type(const BlkSpec& b, std::size_t k) const; // '?': any
};
// does the block need input k in order to run?
bool needs_input(const BlkSpec& b, std::size_t k);

// user code, common to both sides
Vec time_fn(char ty, int sz, int fn, const Vec& p, double t, bool* tie = nullptr);
std::vector<Vec> user_fn(const BlkSpec& b, double t, const std::vector<Vec>& in, bool* tie = nullptr);
bool is_user(const std::string& type); // does the block call user code when it runs?

// ---------------------------------------------------------------- reference model
struct Ref
{
    struct St
    {
        Vec v, v2;             // value; derivative: last input / last output
        bool first{true}, flag{false};
        double t{0};
        std::vector<double> ht; // delay: committed times
        std::vector<Vec> hx;    // and inputs
    };
    const Spec& sp;
    std::vector<BlkSpec> nodes; // the blocks, bus blocks replaced by their parts
    std::vector<int> order;   // indices of blocks in an executable order
    std::vector<int> blocked; // indices of those that cannot run
    std::vector<St> st;       // by block index
    std::map<int, Vec> sig;   // values of the latest evaluation
    bool tie{false};          // a comparison of the latest evaluations was too close to call
    double biggest{0};

    std::set<int> mute;         // external signals that are not delivered
    std::set<int> have;         // signals that get a value

    explicit Ref(const Spec& s);
    void plan_order(); // to be repeated when `mute` has changed
    std::vector<int> integ; // indices of integrators
    std::vector<Vec> states() const;
    std::vector<Vec> derivs() const;
    void begin(double t);
    void eval(double t, const std::vector<Vec>* x = nullptr);
    void commit(double t);

    // one step of a published method from the begun step at t1; returns the new states
    std::vector<Vec> integrate(const std::string& method, double t1, double t2, std::vector<Vec>* other = nullptr);
    // Once values are large, a copy with minutely different states goes along. When it drifts away, the model amplifies
    // rounding errors, and what its values should be is not decidable.
    std::shared_ptr<Ref> twin;
    bool chaotic{false};
    uint64_t jitter{1};
    // begin, integrate, evaluate and commit
    void step(const std::string& method, double t1, double t2);
    void init(double t0)
    {
        twin.reset();
        begin(t0);
        eval(t0);
        commit(t0);
    }
    void stateless(double t) { init(t); }
    bool usable() const { return !tie && !chaotic && biggest < 1e5; }
};
std::vector<Vec> axpy(const std::vector<Vec>& x, double a, const std::vector<Vec>& y);

// ---------------------------------------------------------------- the real model
struct UserFault : std::runtime_error
{
    explicit UserFault(const std::string& s) : std::runtime_error(s) {}
};

struct Hooks
{
    // kind: I external inputs, i root input hook, P begin-of-step, A execution of a block, C end-of-step
    long calls{0};
    long fault_at{0}; // throw at this call of user code (1-based) since arming
    int fault_kind{0};
    long fired{0};
    long hooks{0}; // calls of begin- and end-of-step hooks
    std::function<void(char kind, int id, double t)> on;
    std::function<void(int id, double t, const std::vector<Vec>& in)> on_act;
    std::function<void()> yield;
    std::function<void(char kind)> inside; // may call the library, may throw

    void call(char kind, int id, double t);
    void arm(long at, int kind)
    {
        calls      = 0;
        fault_at   = at;
        fault_kind = kind;
    }
};

struct RealSig
{
    char ty;
    int sz;
    std::optional<pooya::ScalarSignal> s;
    std::optional<pooya::IntSignal> i;
    std::optional<pooya::BoolSignal> b;
    std::optional<pooya::ArraySignal> a;
    pooya::Signal sig() const;
    bool assigned() const;
    Vec get() const; // value; only when assigned
};

struct RealModel
{
    const Spec& sp;
    Hooks hk;
    std::map<int, RealSig> sigs;
    std::map<int, std::unique_ptr<pooya::Block>> blocks;
    std::map<int, std::unique_ptr<pooya::Submodel>> subs;
    std::unique_ptr<pooya::Submodel> root;
    std::string prefix;
    int names{0}; // naming scheme
    std::string given_name(const char* kind, int id) const;
    std::set<int> mute_ext; // externals not written (faults)

    explicit RealModel(const Spec& s, const std::string& name_prefix = "");
    ~RealModel();
    void build();
    pooya::Block& top(); // what a simulator is given
    void write_ext(bool icb, double t);
    void inputs_cb(double t);
    std::vector<Vec> ins(const BlkSpec& b);

private:
    void make_block(const BlkSpec& b);
    void connect(const BlkSpec& b, bool add);
};

// ---------------------------------------------------------------- steppers and simulators
struct Trial
{
    double t0, t1, h; // h: proposed
};
// delegates to a real method, records every trial, optionally replaces the proposal
struct RecStepper : pooya::StepperBase
{
    std::unique_ptr<pooya::StepperBase> inner;
    std::vector<Trial> trials;
    std::function<double(double t0, double t1, double h, long k)> propose;
    std::function<void(double t0, double t1, const pooya::Array& v0, const pooya::Array& v1, double h)> seen;
    long count{0};
    bool record{true};
    void step(StepperCallback callback, double t0, const pooya::Array& v0, double t1, pooya::Array& v1,
              double& new_h) override;
};
std::unique_ptr<RecStepper> make_stepper(const std::string& method);

struct Outcome
{
    int kind{0}; // 0 ok, 1 error of the library, 2 bad_alloc, 3 the injected fault, 4 something else
    std::string what;
    bool ok() const { return kind == 0; }
};

template<typename F>
Outcome guarded(F f)
{
    Outcome o;
    try
    {
        f();
    }
    catch (const UserFault& e)
    {
        Sys s;
        o.kind = 3;
        o.what = e.what();
    }
    catch (const std::bad_alloc& e)
    {
        Sys s;
        o.kind = 2;
        o.what = e.what();
    }
    catch (const std::exception& e)
    {
        Sys s;
        o.kind = 1;
        o.what = e.what();
    }
    catch (...)
    {
        o.kind = 4;
    }
    return o;
}

std::unique_ptr<pooya::SimulatorBase> make_sim(const std::string& kind, pooya::Block& model,
                                               pooya::SimulatorBase::InputCallback cb, pooya::StepperBase* st);

struct RealSim
{
    RealModel& m;
    std::unique_ptr<RecStepper> stepper;
    std::unique_ptr<pooya::SimulatorBase> sim;
    RealSim(RealModel& model, const std::string& kind, const std::string& method);
    RealSim(RealModel& model, const std::string& kind, pooya::StepperBase* st);
    Outcome init(double t0)
    {
        return guarded([&] { sim->init(t0); });
    }
    Outcome run(double t) // default limits
    {
        return guarded([&] { sim->run(t); });
    }
    Outcome run(double t, double mn, double mx)
    {
        return guarded([&] { sim->run(t, mn, mx); });
    }
};

// what the library prints goes here while one of these lives
struct Capture : std::streambuf
{
    std::vector<char> buf;
    std::size_t n{0};
    std::streambuf* old;
    Capture();
    ~Capture() override;
    std::string text() const { return std::string(buf.data(), n); }
    void clear() { n = 0; }
    int overflow(int c) override;
    std::streamsize xsputn(const char* s, std::streamsize k) override;
};

// ---------------------------------------------------------------- comparison
// checks every linked signal that can have a value against the reference
bool close(double a, double b, double scale, double tol = 1e-7);
bool compare(RealModel& m, const Ref& r, const char* cls, const std::string& where, double tol = 1e-7);
void log_signals(RealModel& m);
std::string show(const Vec& v);

// accepted steps of a run that went from `from` to `to`, deduced from the recorded trials; false: inconsistent
bool accepted_steps(const std::vector<Trial>& tr, double from, double to, std::vector<std::pair<double, double>>& out);

// ---------------------------------------------------------------- generation
struct GenOpt
{
    int min_blocks{3}, max_blocks{12};
    bool integ{true}, tint{true}, mem{true}, deriv{true}, delay{true}, ival{true}, array{true}, intbool{true},
        user{true}, lib{true}, bus{true}, probe{true}, ext{true}, div{true}, nested{true};
    double p_user{0.3};
    bool need_integ{false};
    bool focus_mem{false}, focus_deriv{false}, focus_tint{false}; // many of these
    bool smooth{false}; // nothing discontinuous in time or state
    bool sole{true}; // at times only one of the blocks
};
void gen_model(Rng& r, Plan& plan, const GenOpt& o);
void shuffle_order(Rng& r, Plan& plan); // orders, nesting
double dyadic(Rng& r, double lo, double hi, int den);

} // namespace sim
