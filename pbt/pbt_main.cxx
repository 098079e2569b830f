#include "pbt.hxx"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <fstream>
#include <iostream>
#include <typeinfo>
#include <cxxabi.h>

extern "C" const char* __asan_default_options() {
   return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_malloc_fill_size=4096:malloc_fill_byte=203:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:handle_abort=1:fast_unwind_on_malloc=1:malloc_context_size=8:quarantine_size_mb=32:strict_init_order=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1"; }

namespace pbt {

static Shared* S;
static std::string errPath;
static double hangSeconds = 25;
static pid_t ownerPid;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double cpuOf(pid_t p) { clockid_t c; timespec t; if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return 0; return t.tv_sec + t.tv_nsec * 1e-9; }

static void setMsg(const std::string& m) { std::strncpy(S->msg, m.c_str(), MSG_LEN - 1); S->msg[MSG_LEN - 1] = 0; }

// run one case in this process; true = failed (message in S->msg)
static bool runCase(const PropDesc& p, Ctx& c) {
   try { p.fn(c); return false; }
   catch (Discard&) { throw; }
   catch (Failure& f) { setMsg(f.msg); return true; }
   catch (std::exception& e) {
      int st; char* d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
      setMsg(std::string("uncaught exception ") + (d ? d : "?") + ": " + e.what()); return true; }
   catch (const char* e) { setMsg(std::string("uncaught exception (const char*): ") + e); return true; }
   catch (const std::string& e) { setMsg(std::string("uncaught exception (string): ") + e); return true; }
   catch (...) { setMsg("uncaught exception of unknown type"); return true; }
}

static void redirect() {
   int n = open("/dev/null", O_WRONLY); dup2(n, 1);
   int e = open(errPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (e >= 0) dup2(e, 2);
}
static std::string tailErr() {
   std::ifstream f(errPath.c_str()); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
   // prefer the sanitizer report head
   size_t k = s.find("ERROR: AddressSanitizer"); if (k == std::string::npos) k = s.find("runtime error");
   if (k != std::string::npos) { size_t b = s.rfind('\n', k); b = b == std::string::npos ? 0 : b + 1; return s.substr(b, 1800); }
   return s.size() > 1200 ? s.substr(s.size() - 1200) : s;
}

enum Outcome { OK_, FAIL_, CRASH_, HANG_, DISCARD_ };

// run a choice sequence in a forked child
static Outcome runForked(const PropDesc& p, const std::vector<uint64_t>& ch, bool verbose, double limit) {
   S->failed = 0; S->msg[0] = 0; S->notes[0] = 0; S->nChoices = 0;
   pid_t pid = fork();
   if (pid == 0) {
      redirect();
      Ctx c(S, 0, true); c.setReplay(&ch); c.setVerbose(verbose);
      int rc = 0;
      try { if (runCase(p, c)) rc = 42; } catch (Discard&) { rc = 43; }
      std::strncpy(S->notes, c.notes().c_str(), NOTE_LEN - 1);
      _exit(rc);
   }
   double t0 = now(); int st;
   while (true) {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) break;
      if (cpuOf(pid) > limit || now() - t0 > 8 * limit + 60) { kill(pid, SIGKILL); waitpid(pid, &st, 0); setMsg("hang: case did not finish within the CPU limit"); return HANG_; }
      double el = now() - t0;
      usleep(el < 0.02 ? 200 : 5000);
   }
   if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return OK_;
   if (WIFEXITED(st) && WEXITSTATUS(st) == 43) return DISCARD_;
   if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return FAIL_;
   std::ostringstream o;
   if (WIFSIGNALED(st)) o << "crash: signal " << WTERMSIG(st); else o << "crash: exit status " << WEXITSTATUS(st);
   o << "\n" << tailErr(); setMsg(o.str());
   return CRASH_;
}

static std::vector<uint64_t> recorded() { return std::vector<uint64_t>(S->choices, S->choices + S->nChoices); }

static std::vector<uint64_t> shrink(const PropDesc& p, std::vector<uint64_t> best, Outcome kind, double budget, long& attempts) {
   double t0 = now(); attempts = 0;
   double lim = kind == HANG_ ? 4 : hangSeconds;
   auto tryIt = [&](const std::vector<uint64_t>& cand) -> bool {
      if (now() - t0 > budget) return false;
      ++attempts;
      Outcome o = runForked(p, cand, false, lim);
      bool bad = (o == FAIL_ || o == CRASH_ || o == HANG_);
      if (kind == HANG_ && o != HANG_) bad = false;
      if (!bad) return false;
      std::vector<uint64_t> r = o == HANG_ || o == CRASH_ ? cand : recorded();
      if (r.size() > cand.size()) r = cand;
      // accept only if simpler (shortlex)
      if (r.size() < best.size() || (r.size() == best.size() && r < best)) { best = r; return true; }
      return false;
   };
   bool improved = true;
   while (improved && now() - t0 < budget) {
      improved = false;
      // truncate
      for (size_t keep = 0; keep < best.size() && now() - t0 < budget; keep = keep ? keep * 2 : 1) {
         std::vector<uint64_t> cand(best.begin(), best.begin() + keep);
         if (tryIt(cand)) { improved = true; break; }
      }
      // delete chunks
      for (size_t len : {32, 16, 8, 4, 3, 2, 1}) {
         for (long i = (long)best.size() - (long)len; i >= 0 && now() - t0 < budget; ) {
            std::vector<uint64_t> cand(best); 
            if ((size_t)i + len > cand.size()) { --i; continue; }
            cand.erase(cand.begin() + i, cand.begin() + i + len);
            if (tryIt(cand)) { improved = true; i = std::min<long>(i, (long)best.size() - (long)len); }
            else {
               // delete and decrement a preceding count
               bool ok = false;
               for (long back = 1; back <= 2 && !ok; ++back) if (i - back >= 0 && best[i - back] > 0 && best[i-back] < 64) {
                  std::vector<uint64_t> c2(cand); c2[i - back]--; if (tryIt(c2)) { improved = ok = true; }
               }
               if (ok) i = std::min<long>(i, (long)best.size() - (long)len); else i -= (long)std::max<size_t>(1, len / 2);
            }
         }
      }
      // zero / lower values
      for (size_t i = 0; i < best.size() && now() - t0 < budget; ++i) {
         if (best[i] == 0) continue;
         std::vector<uint64_t> cand(best); cand[i] = 0;
         if (tryIt(cand)) { improved = true; continue; }
         uint64_t lo = 0, hi = best[i];
         int guard = 0;
         while (lo + 1 < hi && guard++ < 20 && i < best.size()) {
            uint64_t mid = lo + (hi - lo) / 2;
            cand = best; cand[i] = mid;
            if (tryIt(cand)) { improved = true; hi = mid; } else lo = mid;
         }
      }
   }
   return best;
}

static std::string jstr(const std::string& s) {
   std::string r = "\"";
   for (unsigned char ch : s) {
      if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
      else if (ch == '\n') r += "\\n";
      else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
      else r += ch;
   }
   return r + "\"";
}

static uint64_t caseSeed(uint64_t seed, const char* prop, uint64_t i) {
   uint64_t h = mix(seed ^ 0x5bd1e995);
   for (const char* p = prop; *p; ++p) h = mix(h ^ (unsigned char)*p);
   return mix(h ^ mix(i + 17));
}

static std::vector<uint64_t> readChoices(const std::string& f) {
   std::ifstream in(f.c_str()); std::string line; std::vector<uint64_t> ch;
   while (std::getline(in, line)) if (line.compare(0, 8, "choices:") == 0) { std::istringstream is(line.substr(8)); uint64_t v; while (is >> v) ch.push_back(v); }
   return ch;
}

int mainImpl(int argc, char** argv) {
   std::string prop, out, replay, knownArg, history; uint64_t seed = 1; long shard = 0, nshards = 1; long cases = -1; double deadline = 1e9; bool list = false, thorough = false;
   double shrinkBudget = 40;
   for (int i = 1; i < argc; ++i) {
      std::string a = argv[i]; auto nx = [&]{ return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--list") list = true; else if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
      else if (a == "--shard") shard = atol(nx().c_str()); else if (a == "--nshards") nshards = atol(nx().c_str());
      else if (a == "--cases") cases = atol(nx().c_str()); else if (a == "--deadline") deadline = atof(nx().c_str());
      else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--known") knownArg = nx();
      else if (a == "--thorough") thorough = true; else if (a == "--hang") hangSeconds = atof(nx().c_str());
      else if (a == "--shrink") shrinkBudget = atof(nx().c_str());
      else { std::cerr << "unknown argument " << a << "\n"; return 2; }
   }
   if (list) { for (auto& p : registry()) std::cout << p.name << " " << p.quick << " " << p.thorough << "\n"; return 0; }
   static std::set<std::string> tags; { std::istringstream is(knownArg); std::string t; while (std::getline(is, t, ',')) if (!t.empty()) tags.insert(t); }
   Ctx::knownRef() = &tags; Ctx::thoroughRef() = thorough;
   const PropDesc* P = 0; for (auto& p : registry()) if (prop == p.name) P = &p;
   if (!P) { std::cerr << "no such prop\n"; return 2; }
   S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   if (S == MAP_FAILED) { std::cerr << "mmap failed\n"; return 2; }
   char tmp[] = "/tmp/pbt_err_XXXXXX"; int tfd = mkstemp(tmp); if (tfd >= 0) close(tfd); errPath = tmp; ownerPid = getpid();
   struct Cleaner { ~Cleaner() { if (getpid() == ownerPid) unlink(errPath.c_str()); } } cleaner;

   if (!replay.empty()) {
      std::vector<uint64_t> ch = readChoices(replay);
      Outcome o = runForked(*P, ch, true, hangSeconds);
      std::cout << S->notes << "\n";
      if (o == OK_ || o == DISCARD_) { std::cout << "replay: case passes\n"; return 0; }
      std::cout << "replay: FAILED: " << S->msg << "\n"; return 1;
   }

   if (cases < 0) cases = thorough ? P->thorough : P->quick;
   double tStart = now(); bool deadlineHit = false;
   uint64_t next = (uint64_t)shard; 
   std::ostringstream fails; bool failed = false; std::string kindName; std::vector<uint64_t> minimal; std::string fmsg, fnotes; uint64_t failCase = 0; long attempts = 0;
   size_t origSize = 0; std::string origMsg;
   {
      pid_t pid = fork();
      if (pid == 0) {
         redirect();
         for (uint64_t i = next; i < (uint64_t)cases; i += nshards) {
            if (now() - tStart > deadline) { S->done = 2; _exit(0); }
            S->currentCase = i; S->caseStartNs = (uint64_t)(now() * 1e9);
            Ctx c(S, caseSeed(seed, P->name, i), false);
            bool f = false;
            try { f = runCase(*P, c); } catch (Discard&) { ++S->discarded; ++S->evaluations; continue; }
            ++S->evaluations;
            if (f) { S->failed = 1; _exit(42); }
            if (c.isNontrivial()) {
               ++S->nontrivial;
               if (S->nDistinct < MAX_DISTINCT) S->distinct[S->nDistinct++] = c.hash();
               if (S->nSamples < 3) { S->sampleCase[S->nSamples++] = i; }
            }
         }
         S->done = 1; _exit(0);
      }
      int st = 0; Outcome kind = OK_;
      uint64_t lastCase = ~0ull; double cpu0 = 0, w0 = now();
      while (true) {
         pid_t r = waitpid(pid, &st, WNOHANG);
         if (r == pid) break;
         uint64_t cc = S->currentCase;
         double cpu = cpuOf(pid);
         if (cc != lastCase) { lastCase = cc; cpu0 = cpu; w0 = now(); }
         else if (cpu - cpu0 > hangSeconds || now() - w0 > hangSeconds * 8 + 60) { kill(pid, SIGKILL); waitpid(pid, &st, 0); kind = HANG_; break; }
         usleep(3000);
      }
      if (kind != HANG_) {
         if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->done) { kind = OK_; deadlineHit = S->done == 2; }
         else if (WIFEXITED(st) && WEXITSTATUS(st) == 42 && S->failed) kind = FAIL_;
         else kind = CRASH_;
      }
      if (kind != OK_) {
         failed = true; failCase = S->currentCase;
         std::vector<uint64_t> ch = recorded(); origSize = ch.size();
         if (kind == FAIL_) origMsg = S->msg; else if (kind == HANG_) origMsg = "hang"; else { std::ostringstream o; if (WIFSIGNALED(st)) o << "crash: signal " << WTERMSIG(st); else o << "crash: exit status " << WEXITSTATUS(st); o << "\n" << tailErr(); origMsg = o.str(); }
         // confirm in isolation, then shrink
         Outcome o1 = runForked(*P, ch, false, hangSeconds);
         bool iso = (o1 == FAIL_ || o1 == CRASH_ || o1 == HANG_);
         if (iso) { minimal = shrink(*P, ch, o1, shrinkBudget, attempts); kindName = o1 == FAIL_ ? "fail" : o1 == CRASH_ ? "crash" : "hang"; }
         else { minimal = ch; kindName = "unreproduced"; }
         int rep = 0; for (int k = 0; k < 3; ++k) { Outcome o = runForked(*P, minimal, true, hangSeconds); if (o == FAIL_ || o == CRASH_ || o == HANG_) { ++rep; fmsg = S->msg; fnotes = S->notes; } }
         if (iso && rep == 0) kindName = "unreproduced";
         if (fmsg.empty()) fmsg = origMsg;
         fails << "\"reproduced\": " << rep << ",";
      }
   }
   // samples
   std::vector<std::string> samples;
   uint32_t ns = S->nSamples; uint64_t sc[8]; for (uint32_t i = 0; i < ns; ++i) sc[i] = S->sampleCase[i];
   struct Stat { uint64_t ev, nt, di, nd; } stt = { S->evaluations, S->nontrivial, S->discarded, S->nDistinct };
   for (uint32_t i = 0; i < ns && i < 2; ++i) {
      // regenerate choices in a child with notes on
      pid_t pid = fork();
      if (pid == 0) { redirect(); Ctx c(S, caseSeed(seed, P->name, sc[i]), true); c.setVerbose(true); S->notes[0] = 0; try { runCase(*P, c); } catch (...) {} std::strncpy(S->notes, c.notes().c_str(), NOTE_LEN - 1); _exit(0); }
      int st; waitpid(pid, &st, 0);
      std::ostringstream o; o << "case " << sc[i] << " of " << P->name << " (" << S->nChoices << " choices): " << std::string(S->notes).substr(0, 700);
      samples.push_back(o.str());
   }
   std::ofstream f(out.empty() ? "/dev/stdout" : out.c_str());
   f << "{\"prop\": " << jstr(P->name) << ", \"shard\": " << shard << ", \"evaluations\": " << stt.ev << ", \"nontrivial\": " << stt.nt << ", \"discarded\": " << stt.di
     << ", \"deadline_hit\": " << (deadlineHit ? "true" : "false") << ", \"wall\": " << now() - tStart << ",\n \"labels\": {";
   for (uint32_t i = 0; i < S->nLabels; ++i) f << (i ? ", " : "") << jstr(S->label[i]) << ": " << S->labelCount[i];
   f << "},\n \"known\": {";
   for (uint32_t i = 0; i < S->nKnown; ++i) f << (i ? ", " : "") << jstr(S->known[i]) << ": [" << S->knownCount[i] << ", " << jstr(S->knownMsg[i]) << "]";
   f << "},\n \"samples\": ["; for (size_t i = 0; i < samples.size(); ++i) f << (i ? ", " : "") << jstr(samples[i]);
   f << "],\n \"hashes\": ["; for (uint64_t i = 0; i < stt.nd; ++i) f << (i ? "," : "") << S->distinct[i];
   f << "]";
   if (failed) {
      f << ",\n \"failure\": {" << fails.str() << "\"kind\": " << jstr(kindName) << ", \"case\": " << failCase << ", \"attempts\": " << attempts << ", \"orig_size\": " << origSize
        << ", \"message\": " << jstr(fmsg) << ", \"orig_message\": " << jstr(origMsg.substr(0, 1500)) << ", \"notes\": " << jstr(fnotes) << ", \"choices\": [";
      for (size_t i = 0; i < minimal.size(); ++i) f << (i ? "," : "") << minimal[i];
      f << "]}";
   }
   f << "}\n";
   return failed ? 1 : 0;
}
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
