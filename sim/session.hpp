// Building blocks shared by the properties' workloads.
#pragma once
#include "model.hpp"

#include <cmath>

namespace sim
{

// A model, its simulator and the reference model, driven request by request.
struct Session
{
    const Plan& plan;
    std::optional<Capture> cap;
    Spec sp;
    std::unique_ptr<RealModel> m;
    std::unique_ptr<Ref> ref;
    std::unique_ptr<RealSim> rs;
    std::string simk, meth;
    bool good{false};   // plan understood, model built
    bool refused_build{false}; // of an ill-sized model
    bool inited{false}; // by a successful first request
    double tprev{0};
    double mn{0}, mx{0}; // limits of requests without their own
    long steps{0}, rejected{0}, nreq{0};
    double tol{1e-7};
    bool advance_ref{true};

    explicit Session(const Plan& p, const std::string& prefix = "", bool capture = true);
    ~Session();
    void new_sim(const std::string& kind, bool keep_stepper = false); // replaces the simulator
    Outcome request_raw(const Line& op);   // the library call alone
    // library call, reference, comparison; false: stop (violation reported, or no longer comparable)
    bool request(const Line& op, const char* cls);
    // advance the reference by what the last request did; false as above
    bool follow(double t, const char* cls);
    // advance the reference by the steps that a failed request had committed; false: they cannot be explained
    bool absorb(const std::vector<double>& commit_times, const char* cls);
};

// The commits of a request, seen through the end-of-step calls of the model's probes.
struct Commits
{
    std::vector<double> times;
    bool any{false};
    explicit Commits(Session& s);
    void reset()
    {
        times.clear();
        any = false;
    }

private:
    bool fresh{true};
};
bool has_probe(const Spec& sp);

// Follows the library evaluation by evaluation through the calls it makes to user code.
struct Online
{
    Session& s;
    std::unique_ptr<Ref> ref; // driven by the events
    std::map<int, int> acts;  // in the current evaluation
    std::set<int> users;      // blocks of user code that can run
    std::set<int> probes;
    bool begun{false}, evaled{false}, committed{false}, ended{false}, comparing{true};
    double t{0};
    long evals{0}, commits{0};
    std::map<int, int> pre, post;    // hooks since the last change of step
    std::vector<double> commit_times; // of the current request
    const char* cls;
    bool values{true};

    Online(Session& s, const char* cls);
    void refresh(const std::set<int>& mute); // other externals are missing from now on
    void segment_start(double t);
    void segment_end();
    void ensure_eval(double t);
    void act(int id, double t, const std::vector<Vec>& in);
    void event(char kind, int id, double t);
    std::function<void(int id, double t)> on_commit; // first end-of-step hook of an evaluation
};

// requests
struct TimesOpt
{
    int min_n{2}, max_n{7};
    bool limits{true}, repeats{false}, backs{false};
    double max_dt{1};
    int max_mn_exp{12};
};
double gen_requests(Rng& r, Plan& plan, const TimesOpt& o); // "run" lines; returns the last time
void add_probes(Rng& r, Plan& p, int n, bool must = false);
void gen_script(Rng& r, Plan& p, int n, double p_grow); // "rej" lines: scripted proposals of the stepper
struct Driven
{
    int ok{0}, repeats{0}, refused{0};
    bool complete{false};
};
Driven drive(Session& s, const char* cls, Online* on = nullptr, bool one_step = false);
void gen_cfg(Rng& r, Plan& plan, bool stateful_methods = true);

} // namespace sim
