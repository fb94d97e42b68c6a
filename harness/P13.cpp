//@bounds all histories of 3 calls from the empty object and of 2 from one with three arguments (thorough: one more each) of addArgument (one or two names), flag, dest, removeArguments (one or two names) and clear, failing calls included, over a pool of 5 names: two short flags, two long flags (one of each with an arbitrary character) and a positional name; then a lookup and an update of every name and a command line with one of the flags; scenario many: arguments with 6, 3 and 1 names, every subset of the names removed at once or one by one, in both orders; scenario near: 7 registered names and a text of up to 4 arbitrary bytes (NUL included), one of them with 1 or 2 arbitrary bytes more or one byte replaced, looked up in every way and removed
//@outside longer histories and larger pools
//@cover nearname exactname removed_one removed_last refused duplicate dest cleared unknown parsed same many
#include "common.h"
struct Owner { SV names; std::string mark; bool pos; };
static std::vector<Owner> model;
static SV pool;
static Args* args;
static std::string sink;
static int ownerOf(const std::string& n) {
    for (size_t i = 0; i < model.size(); ++i) for (size_t j = 0; j < model[i].names.size(); ++j) if (model[i].names[j] == n) return (int)i;
    return -1;
}
static void forget(const std::string& n) {
    int k = ownerOf(n);
    if (k < 0) return;
    for (size_t j = 0; j < model[k].names.size(); ++j) if (model[k].names[j] == n) { model[k].names.erase(model[k].names.begin() + j); break; }
    if (model[k].names.empty()) { model.erase(model.begin() + k); symex_cover("removed_last"); }
    else symex_cover("removed_one");
}
static void lookups() {
    for (size_t i = 0; i < pool.size(); ++i) {
        int k = ownerOf(pool[i]);
        CHECK(args->argumentExists(pool[i]) == (k >= 0), k >= 0 ? "a registered name is not known" : "a name that is not registered is known");
        if (k < 0) {
            bool denied = false, denied2 = false;
            try { (void)args->getArgument(pool[i]); } catch (const Args::AccessDeniedException&) { denied = true; }
            try { (void)args->updateArgument(pool[i]); } catch (const Args::AccessDeniedException&) { denied2 = true; }
            CHECK(denied && denied2, "looking up an unknown name does not throw AccessDeniedException");
            symex_cover("unknown");
            continue;
        }
        const blet::args::Argument& a = args->getArgument(pool[i]);
        CHECK(a.getHelp() == model[k].mark, "a name leads to another argument than its owner");
        CHECK(&a == &(*args)[pool[i]] && &a == &args->updateArgument(pool[i]), "lookups of one name lead to different arguments");
        const SV& names = a.getNameOrFlags();
        CHECK(names.size() == model[k].names.size(), "the name list has another length than the registered names");
        for (size_t j = 0; j < model[k].names.size(); ++j) {
            size_t c = 0;
            for (size_t q = 0; q < names.size(); ++q) c += names[q] == model[k].names[j];
            CHECK(c == 1, "a registered name is not in the name list of its argument exactly once");
            CHECK(&args->getArgument(model[k].names[j]) == &a, "two names of one argument lead to different arguments");
        }
    }
}
static void histories() {
    args = new Args;
    model.clear();
    std::string s1 = sym("-?", "short"), l1 = sym("--?", "long");
    pool = sv(s1.c_str(), "-b", l1.c_str(), "--l");
    pool.push_back("N");
    symex_assume(pool[0][1] != '-');
    static const unsigned pairs[6][2] = {{0, 1}, {3, 0}, {1, 2}, {2, 3}, {2, 2}, {4, 1}};
    bool start = symex_choose(2, "start");
    if (start) {
        args->addArgument(vec(sv("-b", "--l"))).help("x");
        args->addArgument("-c").help("y");
        args->addArgument("N").help("z");
        for (int i = 0; i < 3; ++i) { Owner o; o.mark = i == 0 ? "x" : i == 1 ? "y" : "z"; o.pos = i == 2; o.names = i == 0 ? sv("-b", "--l") : i == 1 ? sv("-c") : sv("N"); model.push_back(o); }
    }
    unsigned steps = (start ? 2 : 3) + THOROUGH;
    for (unsigned s = 0; s < steps; ++s) {
        char mark[3] = {'m', (char)('0' + s), 0};
        switch (symex_choose(s || start ? 7 : 2, "call")) {
            case 0: {
                const std::string& n = pool[symex_choose(5, "name")];
                bool ok = ownerOf(n) < 0, threw = false;
                try { args->addArgument(vec(sv(n.c_str()))).help(mark); } catch (const Args::ArgumentException&) { threw = true; }
                CHECK(ok != threw, ok ? "a free name is refused" : "a name is registered twice");
                if (ok) { Owner o; o.names.push_back(n); o.mark = mark; o.pos = n[0] != '-'; model.push_back(o); }
                else symex_cover("refused");
                break;
            }
            case 1: {
                unsigned k = symex_choose(5, "pair"), i = pairs[k][0], j = pairs[k][1];
                bool ok = ownerOf(pool[i]) < 0 && ownerOf(pool[j]) < 0, threw = false;
                try { args->addArgument(vec(sv(pool[i].c_str(), pool[j].c_str()))).help(mark); } catch (const Args::ArgumentException&) { threw = true; }
                CHECK(ok != threw, ok ? "free flags are refused" : "a flag is registered twice");
                if (ok) {
                    Owner o;
                    o.names.push_back(pool[i]);
                    if (pool[j] != pool[i]) o.names.push_back(pool[j]); else symex_cover("same");
                    o.mark = mark;
                    o.pos = false;
                    model.push_back(o);
                }
                else symex_cover("duplicate");
                break;
            }
            case 2: {
                symex_assume(!model.empty());
                Owner& o = model[symex_choose((unsigned)model.size(), "owner")];
                const std::string& n = pool[symex_choose(4, "flag")];
                bool ok = ownerOf(n) < 0 && !o.pos, threw = false;
                try { args->updateArgument(o.names[0]).flag(n.c_str()); } catch (const Args::ArgumentException&) { threw = true; }
                CHECK(ok != threw, ok ? "a free flag is refused" : "a taken flag is added");
                if (ok) o.names.push_back(n);
                break;
            }
            case 3: {
                symex_assume(!model.empty());
                Owner& o = model[symex_choose((unsigned)model.size(), "owner")];
                blet::args::Argument& a = args->updateArgument(o.names.back()).dest(sink);
                CHECK(&a == &args->getArgument(o.names[0]), "dest returns another object than the one later found");
                symex_cover("dest");
                break;
            }
            case 4: {
                const std::string& n = pool[symex_choose(5, "name")];
                bool ok = ownerOf(n) >= 0, threw = false;
                try { args->removeArguments(vec(sv(n.c_str()))); } catch (const Args::ArgumentException&) { threw = true; }
                CHECK(ok != threw, ok ? "removing a known name is refused" : "removing an unknown name is not refused");
                if (ok) forget(n);
                break;
            }
            case 5: {
                unsigned k = symex_choose(6, "pair"), i = pairs[k][0], j = pairs[k][1];
                bool ok = ownerOf(pool[i]) >= 0 && ownerOf(pool[j]) >= 0, threw = false;
                try { args->removeArguments(vec(sv(pool[i].c_str(), pool[j].c_str()))); } catch (const Args::ArgumentException&) { threw = true; }
                CHECK(ok != threw, ok ? "removing known names is refused" : "removing an unknown name is not refused");
                if (ok) { std::string b = pool[j]; forget(pool[i]); forget(b); }
                break;
            }
            case 6: args->clear(); model.clear(); symex_cover("cleared"); break;
        }
    }
    lookups();
    // the command line resolves flags the same way
    if (!model.empty()) {
        for (size_t k = 0; k < model.size(); ++k) if (!model[k].pos) args->updateArgument(model[k].names[0]).action(Args::STORE_TRUE);
        const std::string& n = pool[symex_choose(4, "use")];
        symex_assume(ownerOf(n) >= 0 && n.find('=') == std::string::npos);
        args->setHelpException();
        Line l;
        l.add("prog").add(n.c_str());
        Run r = run(*args, l);
        CHECK(r.status == S_OK, "a registered flag is not accepted on the command line");
        for (size_t k = 0; k < model.size(); ++k) CHECK(args->getArgument(model[k].names[0]).isExists() == ((int)k == ownerOf(n)), "a flag on the command line sets another argument");
        symex_cover("parsed");
    }
    delete args;
}
// one argument with six flags, one with three, a positional; any subset of the names removed in one call and in either order
static void many() {
    args = new Args;
    model.clear();
    static const char* const names[] = {"-c", "--ee", "-a", "--dd", "-b", "--ff", "-x", "--y", "-z", "N"};
    pool.clear();
    for (int i = 0; i < 10; ++i) pool.push_back(names[i]);
    for (int k = 0; k < 3; ++k) {
        Owner o;
        o.mark = std::string(1, (char)('p' + k));
        o.pos = k == 2;
        for (int i = k == 0 ? 0 : k == 1 ? 6 : 9; i < (k == 0 ? 6 : k == 1 ? 9 : 10); ++i) o.names.push_back(names[i]);
        args->addArgument(vec(o.names)).help(o.mark.c_str());
        model.push_back(o);
    }
    unsigned mask = 1 + symex_choose(1023, "removed");
    bool back = symex_choose(2, "backwards"), apart = symex_choose(2, "apart"), bound = symex_choose(2, "dest");
    if (bound) args->updateArgument("-b").dest(sink);
    SV r;
    for (int i = 0; i < 10; ++i) { int j = back ? 9 - i : i; if (mask >> j & 1) r.push_back(names[j]); }
    if (apart) for (size_t i = 0; i < r.size(); ++i) args->removeArguments(r[i]);
    else args->removeArguments(vec(r));
    for (size_t i = 0; i < r.size(); ++i) forget(r[i]);
    lookups();
    // the usage message names what is left
    std::string u = args->getUsage();
    for (size_t k = 0; k < model.size(); ++k) for (size_t j = 0; j < model[k].names.size(); ++j) CHECK(has(u, model[k].names[j]), "a registered name is missing in the usage message");
    for (size_t i = 0; i < r.size(); ++i) CHECK(!has(u, r[i]), "a removed name is shown in the usage message");
    symex_cover("many");
    delete args;
}
// texts that are nearly a registered name: shorter, longer, behind a NUL byte, in another case
static void nearNames() {
    args = new Args;
    static const char* const names[] = {"-a", "--ab", "--long-name", "N", "--ab-c", "-B", "FILE"};
    for (unsigned i = 0; i < 7; ++i) args->addArgument(vec(sv(names[i]))).help(names[i]);
    char b[5];
    std::string t;
    unsigned form = symex_choose(3, "form"), k = symex_choose(7, "name"), n = 1 + symex_choose(2, "extra");
    symex_make(b, n, "bytes");
    t = names[k];
    if (form == 0) t += std::string(b, n);                       // longer, by any bytes
    if (form == 1) { n = symex_choose(5, "length"); symex_make(b, n, "text"); t = std::string(b, n); }
    if (form == 2) t[t.size() - n < t.size() ? t.size() - n : 0] = b[0];  // one byte replaced
    int owner = -1;
    for (int i = 0; i < 7; ++i) if (t == names[i]) owner = i;
    CHECK(args->argumentExists(t) == (owner >= 0), owner >= 0 ? "a registered name is not known" : "a name that is not registered is known");
    for (int way = 0; way < 3; ++way) {
        bool denied = false;
        std::string help;
        try { help = way == 0 ? args->getArgument(t).getHelp() : way == 1 ? args->updateArgument(t).getHelp() : (*args)[t].getHelp(); }
        catch (const Args::AccessDeniedException& e) { denied = true; CHECK(t.c_str() == std::string(e.argument()), "the exception does not name the unknown name"); }
        CHECK(denied == (owner < 0), "looking up an unknown name does not throw AccessDeniedException");
        CHECK(denied || help == names[owner], "a name leads to another argument than its owner");
    }
    if (owner < 0) {
        bool threw = false;
        try { args->removeArguments(vec(SV(1, t))); } catch (const Args::ArgumentException&) { threw = true; }
        CHECK(threw, "removing an unknown name is not refused");
        for (unsigned i = 0; i < 7; ++i) CHECK(args->argumentExists(names[i]), "an unknown name removes a registered one");
    }
    symex_cover(owner < 0 ? "nearname" : "exactname");
    delete args;
}
extern "C" void symex_main() {
    switch (symex_choose(3, "many")) { case 0: histories(); break; case 1: many(); break; default: nearNames(); }
}
