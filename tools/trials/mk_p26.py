import json
B=[]
R="spectator/registry.cc"
P="spectator/publisher.h"
S="server/spectatord.cc"
H="server/spectatord.h"
def bad(name,old,new,file=R,checks="P26",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=R,checks="P26 P13",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
LR="    {\n      // the expirer has either seen should_stop_, or is waiting\n      std::unique_lock<std::mutex> lock{cv_mutex_};\n    }\n"
LP="      {\n        // the sender has either seen should_stop_, or is waiting\n        std::unique_lock<std::mutex> lock{cv_mutex_};\n      }\n"
LS="    {\n      // the upkeep thread has either seen should_stop_, or is waiting\n      std::unique_lock<std::mutex> lock{cv_mutex_};\n    }\n"
bad("r-nolock",LR,"")
bad("p-nolock",LP,"",file=P)
bad("s-nolock",LS,"",file=S)
bad("r-notify-first",LR+"    cv_.notify_all();\n","    cv_.notify_all();\n"+LR)
bad("p-notify-first",LP+"      cv_.notify_all();\n","      cv_.notify_all();\n"+LP,file=P)
bad("r-nonotify","    cv_.notify_all();\n","")
bad("s-nonotify","    cv_.notify_all();\n","",file=S)
bad("p-flag-late","      should_stop_ = true;\n"+LP,LP+"      should_stop_ = true;\n",file=P)
bad("p-noflag","      should_stop_ = true;\n","",file=P)
bad("r-nojoin","    expirer_thread_.join();\n","    expirer_thread_.detach();\n")
bad("r-nojoin2","    expirer_thread_.join();\n","")
bad("p-holds",LP+"      cv_.notify_all();","      std::unique_lock<std::mutex> lock{cv_mutex_};\n      cv_.notify_all();",file=P)
bad("s-holds",LS,"    std::unique_lock<std::mutex> lock{cv_mutex_};\n",file=S)
PR=", [this] { return should_stop_.load(); }"
bad("r-nopred1","cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency)"+PR,"cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency)")
bad("r-nopred2","cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep)"+PR,"cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep)")
bad("p-nopred","cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep)"+PR,"cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep)",file=P)
bad("s-nopred","cv_.wait_for(lock, sleep"+PR,"cv_.wait_for(lock, sleep",file=S)
bad("s-negpred","cv_.wait_for(lock, sleep"+PR,"cv_.wait_for(lock, sleep, [this] { return !should_stop_.load(); }",file=S)
bad("p-startedpred","cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep)"+PR,"cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep), [this] { return started_.load(); }",file=P)
bad("p-andpred","cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep)"+PR,"cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep), [this] { return should_stop_ && last_successful_send_ > 0; }",file=P)
bad("s-captured","cv_.wait_for(lock, sleep"+PR,"const bool stopping = should_stop_;\n      cv_.wait_for(lock, sleep, [stopping] { return stopping; }",file=S)
bad("r-sleep","    {\n    std::unique_lock<std::mutex> lock{cv_mutex_};\n    cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency)".replace("    {\n    ","  {\n    ")+PR+");\n  }","  std::this_thread::sleep_for(absl::ToChronoMilliseconds(frequency));")
bad("p-sleep","        std::unique_lock<std::mutex> lock{cv_mutex_};\n        auto sleep = cfg.frequency - elapsed;","        auto sleep = cfg.frequency - elapsed;\n        absl::SleepFor(sleep / 2);\n        std::unique_lock<std::mutex> lock{cv_mutex_};",file=P)
bad("r-loop","  while (!should_stop_) {\n    auto start","  for (;;) {\n    auto start")
bad("s-loop","  while (!should_stop_) {\n    auto start","  const bool stopping = should_stop_;\n  while (!stopping) {\n    auto start",file=S)
bad("p-loopstarted","while (!should_stop_) {","while (started_ || !should_stop_) {",file=P,expect="quiet")
bad("p-loopor","while (!should_stop_) {","while (http_initialized_ || !should_stop_) {",file=P)
bad("r-always","  if (!should_stop_.exchange(true)) {\n    logger_->debug(\"Stopping expirer thread\");","  should_stop_ = true;\n  {\n    logger_->debug(\"Stopping expirer thread\");")
bad("r-twostep","  if (!should_stop_.exchange(true)) {\n    logger_->debug(\"Stopping expirer thread\");","  if (!should_stop_) {\n    should_stop_ = true;\n    logger_->debug(\"Stopping expirer thread\");")
bad("p-gate","    if (started_.exchange(false)) {\n      should_stop_","    if (started_.exchange(true)) {\n      should_stop_",file=P)
bad("p-gate2","    if (started_.exchange(false)) {\n      should_stop_","    if (!started_.exchange(false)) {\n      should_stop_",file=P)
bad("p-earlyret","    if (started_.exchange(false)) {\n      should_stop_","    if (started_.exchange(false)) {\n      if (last_successful_send_ == 0) return;\n      should_stop_",file=P)
bad("s-wrongsense","if (!should_stop_.exchange(true)) {","if (should_stop_.exchange(true)) {",file=S)
bad("r-nostartguard","  if (!should_stop_.exchange(false)) {\n    // already started\n    return;\n  }\n","  should_stop_ = false;\n")
bad("p-nostartguard","    if (started_.exchange(true)) {\n      logger->warn(\"Registry already started. Ignoring start request\");\n\n      return;\n    }\n","    if (started_) {\n      return;\n    }\n    started_ = true;\n",file=P)
bad("r-startafter","  if (!should_stop_.exchange(false)) {\n    // already started\n    return;\n  }\n\n  expirer_thread_ = std::thread(&Registry::expirer, this);","  should_stop_.exchange(false);\n  expirer_thread_ = std::thread(&Registry::expirer, this);")
bad("s-nohandler","        io_context.stop();\n        this->Stop();","        io_context.stop();",file=S)
bad("s-noiostop","        io_context.stop();\n        this->Stop();","        this->Stop();",file=S)
bad("p-dtor","    if (started_) {\n      Stop();\n    }\n","",file=P)
bad("p-dtor2","    if (started_) {\n      Stop();","    if (should_stop_) {\n      Stop();",file=P)
bad("r-dtor","  ~Registry() noexcept { Stop(); }","  ~Registry() noexcept = default;",file="spectator/registry.h")
bad("r-dtor2","  ~Registry() noexcept { Stop(); }","  ~Registry() noexcept { publisher_.Stop(); }",file="spectator/registry.h")
bad("r-wrongmutex","    std::unique_lock<std::mutex> lock{cv_mutex_};\n    }\n","    std::unique_lock<std::mutex> lock{stop_mutex_};\n    }\n",edits=[["spectator/registry.h","  std::mutex cv_mutex_;","  std::mutex cv_mutex_;\n  std::mutex stop_mutex_;"],["      std::unique_lock<std::mutex> lock{cv_mutex_};\n    }\n    cv_","      std::unique_lock<std::mutex> lock{stop_mutex_};\n    }\n    cv_"]]) if False else None
bad("r-wrongmutex","      // the expirer has either seen should_stop_, or is waiting\n      std::unique_lock<std::mutex> lock{cv_mutex_};","      // the expirer has either seen should_stop_, or is waiting\n      std::unique_lock<std::mutex> lock{stop_mutex_};",edits=[["spectator/registry.h","  std::mutex cv_mutex_;","  std::mutex cv_mutex_;\n  std::mutex stop_mutex_;"]])
bad("r-joinbefore","    cv_.notify_all();\n    expirer_thread_.join();","    expirer_thread_.join();\n    cv_.notify_all();")
bad("r-trylock",LR,"    std::unique_lock<std::mutex> lock{cv_mutex_, std::try_to_lock};\n    if (lock) lock.unlock();\n")
# ---- edits that keep the behaviour
quiet("guard",LR,"    { std::lock_guard<std::mutex> lock(cv_mutex_); }\n")
quiet("inside",LP+"      cv_.notify_all();","      {\n        std::unique_lock<std::mutex> lock{cv_mutex_};\n        cv_.notify_all();\n      }",file=P)
quiet("one","    cv_.notify_all();","    cv_.notify_one();")
quiet("flagin","      should_stop_ = true;\n"+LP,"      {\n        std::lock_guard<std::mutex> lock(cv_mutex_);\n        should_stop_ = true;\n      }\n",file=P)
quiet("helper","    {\n      // the upkeep thread has either seen should_stop_, or is waiting\n      std::unique_lock<std::mutex> lock{cv_mutex_};\n    }\n    cv_.notify_all();\n","    wake();\n",file=S,edits=[["void Server::Stop() {","void Server::wake() {\n  { std::unique_lock<std::mutex> lock{cv_mutex_}; }\n  cv_.notify_all();\n}\n\nvoid Server::Stop() {"],[H,"  void upkeep();","  void upkeep();\n  void wake();"]])
quiet("joinhelper","    cv_.notify_all();\n    upkeep_thread_.join();","    join_upkeep();",file=S,edits=[["void Server::Stop() {","void Server::join_upkeep() {\n  cv_.notify_all();\n  upkeep_thread_.join();\n}\n\nvoid Server::Stop() {"],[H,"  void upkeep();","  void upkeep();\n  void join_upkeep();"]])
quiet("waithelper","    std::unique_lock<std::mutex> lock{cv_mutex_};\n    cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency)"+PR+");","    pause(frequency);",edits=[["void Registry::expirer() noexcept {","void Registry::pause(absl::Duration d) noexcept {\n  std::unique_lock<std::mutex> lock{cv_mutex_};\n  cv_.wait_for(lock, absl::ToChronoMilliseconds(d), [this] { return should_stop_.load(); });\n}\n\nvoid Registry::expirer() noexcept {"],["spectator/registry.h","  void expirer() noexcept;","  void expirer() noexcept;\n  void pause(absl::Duration d) noexcept;"]])
quiet("predlocal","cv_.wait_for(lock, sleep"+PR,"auto stopping = [this] { return should_stop_.load(); };\n      cv_.wait_for(lock, sleep, stopping",file=S)
quiet("predimplicit","cv_.wait_for(lock, sleep"+PR,"cv_.wait_for(lock, sleep, [this]() -> bool { return should_stop_; }",file=S)
quiet("dowhile","      cv_.wait_for(lock, sleep"+PR+");","      const auto until = clock::now() + sleep;\n      while (!should_stop_) {\n        if (cv_.wait_until(lock, until) == std::cv_status::timeout) break;\n      }",file=S)
quiet("waitret","      cv_.wait_for(lock, sleep"+PR+");","      if (cv_.wait_for(lock, sleep"+PR+")) {\n        break;\n      }",file=S)
quiet("cas","  if (!should_stop_.exchange(true)) {\n    logger_","  bool expected = false;\n  if (should_stop_.compare_exchange_strong(expected, true)) {\n    logger_")
quiet("early","  if (!should_stop_.exchange(true)) {\n    logger_->debug(\"Stopping background tasks\");\n"+LS+"    cv_.notify_all();\n    upkeep_thread_.join();\n  }","  if (should_stop_.exchange(true)) {\n    return;\n  }\n  logger_->debug(\"Stopping background tasks\");\n"+LS+"  cv_.notify_all();\n  upkeep_thread_.join();",file=S)
quiet("joinable","    upkeep_thread_.join();","    if (upkeep_thread_.joinable()) {\n      upkeep_thread_.join();\n    }",file=S)
quiet("order","        io_context.stop();\n        this->Stop();","        this->Stop();\n        io_context.stop();",file=S)
quiet("afterrun","        io_context.stop();\n        this->Stop();","        io_context.stop();",file=S,edits=[["  io_context.run();\n","  io_context.run();\n  Stop();\n"]])
quiet("lambdastart","expirer_thread_ = std::thread(&Registry::expirer, this);","expirer_thread_ = std::thread([this] { expirer(); });")
quiet("loopfor","  while (!should_stop_) {\n    auto start","  for (;;) {\n    if (should_stop_) {\n      return;\n    }\n    auto start")
quiet("stopping","  while (!should_stop_) {\n    auto start","  auto stopping = [this] { return should_stop_.load(); };\n  while (!stopping()) {\n    auto start",file=S)
quiet("doloop","    while (!should_stop_) {\n      auto start","    if (should_stop_) {\n      return;\n    }\n    do {\n      auto start",file=P,edits=[["[this] { return should_stop_.load(); });\n      }\n    }\n    logger->info(\"Stopping","[this] { return should_stop_.load(); });\n      }\n    } while (!should_stop_);\n    logger->info(\"Stopping"]])
quiet("dtorplain","    if (started_) {\n      Stop();\n    }\n","    Stop();\n",file=P)
quiet("startload","    if (started_.exchange(true)) {\n      logger->warn","    const bool running = started_.exchange(true);\n    if (running) {\n      logger->warn",file=P)
quiet("relaxed","      should_stop_ = true;\n","      should_stop_.store(true, std::memory_order_relaxed);\n",file=P)
json.dump([b for b in B if b],open("/tmp/p26.json","w"))
