From 030038dd61c77039493073bbc027c5128e88d464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 01/20] fix: count an option given with an attached short value
 only once

parseShortArgument_ marked the option as present and counted it before
parseArgument_ did the same: '-sVALUE' counted twice, and the defaults of an
APPEND/EXTEND option were kept in front of the supplied value.
---
 single_include/blet/args.h | 2 --
 src/args.cpp               | 2 --
 2 files changed, 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 64b1326..87da6be 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2921,8 +2921,6 @@ inline void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
diff --git a/src/args.cpp b/src/args.cpp
index 3d2399b..65be8fc 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -367,8 +367,6 @@ void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
-- 
2.43.0


From 12238c9d4eb9028ce0dc089502e0a752a2fa1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 02/20] fix: refuse a new argument when any of its flags is
 already registered

Only the first flag of the list was looked up, so a flag could end up in two
arguments.
---
 single_include/blet/args.h | 4 ++--
 src/args.cpp               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 87da6be..aec35f3 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2793,8 +2793,8 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
diff --git a/src/args.cpp b/src/args.cpp
index 65be8fc..157627c 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -239,8 +239,8 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
-- 
2.43.0


From 206275707a45021893f6843392abaf8e4945f377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 03/20] fix: removeArguments with the same name twice used a
 freed map node

The iterator of a repeated name was stored twice and erased twice.
---
 single_include/blet/args.h | 3 +++
 src/args.cpp               | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index aec35f3..3f799a0 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2827,6 +2827,9 @@ inline void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
+        if (std::find(vIt.begin(), vIt.end(), it) != vIt.end()) {
+            continue;
+        }
         vIt.push_back(it);
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
diff --git a/src/args.cpp b/src/args.cpp
index 157627c..c6f5741 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -273,6 +273,9 @@ void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
+        if (std::find(vIt.begin(), vIt.end(), it) != vIt.end()) {
+            continue;
+        }
         vIt.push_back(it);
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
-- 
2.43.0


From 8a2e4e064ba1b0f8d929f10c2d35ef92257c833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 04/20] fix: keep the help and version option valid when dest
 replaces the argument

dest deletes the argument and installs a copy; helpOption_ and versionOption_
kept pointing at the deleted one. The copy also lost the declared defaults.
---
 include/blet/args/argument.h | 11 +++++------
 single_include/blet/args.h   | 24 +++++++++++++++++-------
 src/argument.cpp             | 13 ++++++++++++-
 3 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index a2cd6ad..bb68735 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -662,6 +662,8 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    void replace_(Argument* argument);
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -692,8 +694,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentType() {}
 
@@ -727,8 +728,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentVectorType() {}
 
@@ -799,8 +799,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentVectorVectorType() {}
 
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 3f799a0..1ec5243 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1213,6 +1213,8 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    void replace_(Argument* argument);
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -1243,8 +1245,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentType() {}
 
@@ -1278,8 +1279,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentVectorType() {}
 
@@ -1350,8 +1350,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentVectorVectorType() {}
 
@@ -3355,7 +3354,7 @@ inline Argument::Argument(const Argument& rhs) :
     validDeletable_(rhs.validDeletable_),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 inline Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
@@ -3484,6 +3483,17 @@ inline Argument& Argument::action(enum Action::eAction action__) {
     return *this;
 }
 
+inline void Argument::replace_(Argument* argument) {
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    *this_ = this;
+    delete argument;
+}
+
 inline Argument& Argument::required(bool required__) {
     isRequired_ = required__;
     args_.arguments_.sort(&Argument::compareOption_);
diff --git a/src/argument.cpp b/src/argument.cpp
index e5607e7..9fa4ed5 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -135,7 +135,7 @@ Argument::Argument(const Argument& rhs) :
     validDeletable_(rhs.validDeletable_),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
@@ -264,6 +264,17 @@ Argument& Argument::action(enum Action::eAction action__) {
     return *this;
 }
 
+void Argument::replace_(Argument* argument) {
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    *this_ = this;
+    delete argument;
+}
+
 Argument& Argument::required(bool required__) {
     isRequired_ = required__;
     args_.arguments_.sort(&Argument::compareOption_);
-- 
2.43.0


From 488f16d6cb200ec6cc4bc1b9d2daf8c7fd2e3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 05/20] fix: parse the command line when both -h and --help are
 already used

parseArguments returned without parsing anything.
---
 single_include/blet/args.h | 9 ++++-----
 src/args.cpp               | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 1ec5243..73de1e0 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2622,10 +2622,6 @@ inline void Args::parseArguments(int argc, char* argv[]) {
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
         const std::map<std::string, blet::args::Argument**>::const_iterator cithelp = argumentFromName_.find("--help");
-        if (cith != argumentFromName_.end() && cithelp != argumentFromName_.end()) {
-            // the flags are already used
-            return;
-        }
         Vector flags;
         if (cith == argumentFromName_.end()) {
             flags.push_back("-h");
@@ -2633,7 +2629,10 @@ inline void Args::parseArguments(int argc, char* argv[]) {
         if (cithelp == argumentFromName_.end()) {
             flags.push_back("--help");
         }
-        addArgument(flags).action(Action::HELP).help("show this help message and exit");
+        // at least one of the flags is not already used
+        if (!flags.empty()) {
+            addArgument(flags).action(Action::HELP).help("show this help message and exit");
+        }
     }
     // get argv[0] if filename is empty
     if (binaryName_.empty()) {
diff --git a/src/args.cpp b/src/args.cpp
index c6f5741..dd6a830 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -69,10 +69,6 @@ void Args::parseArguments(int argc, char* argv[]) {
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
         const std::map<std::string, blet::args::Argument**>::const_iterator cithelp = argumentFromName_.find("--help");
-        if (cith != argumentFromName_.end() && cithelp != argumentFromName_.end()) {
-            // the flags are already used
-            return;
-        }
         Vector flags;
         if (cith == argumentFromName_.end()) {
             flags.push_back("-h");
@@ -80,7 +76,10 @@ void Args::parseArguments(int argc, char* argv[]) {
         if (cithelp == argumentFromName_.end()) {
             flags.push_back("--help");
         }
-        addArgument(flags).action(Action::HELP).help("show this help message and exit");
+        // at least one of the flags is not already used
+        if (!flags.empty()) {
+            addArgument(flags).action(Action::HELP).help("show this help message and exit");
+        }
     }
     // get argv[0] if filename is empty
     if (binaryName_.empty()) {
-- 
2.43.0


From 5bade190dc4e6f76d63047761e951c8a1a07f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 06/20] fix: ValidNumber accepted the empty string

---
 single_include/blet/args.h | 2 +-
 src/valid.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 73de1e0..59a42d5 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -4332,7 +4332,7 @@ inline bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
diff --git a/src/valid.cpp b/src/valid.cpp
index 28c6553..e1e70af 100644
--- a/src/valid.cpp
+++ b/src/valid.cpp
@@ -49,7 +49,7 @@ bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
-- 
2.43.0


From 53ba80527d614feb9931e46795d13af7d8065ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 07/20] fix: do not take a program name of '--' for the end of
 the options

---
 include/blet/args/utils.h  | 2 +-
 single_include/blet/args.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blet/args/utils.h b/include/blet/args/utils.h
index ff4fda2..3d57969 100644
--- a/include/blet/args/utils.h
+++ b/include/blet/args/utils.h
@@ -89,7 +89,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 59a42d5..bf13e3d 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2538,7 +2538,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
-- 
2.43.0


From 875fbf6bff53696c7d34ce3b20c6f2163f9dd6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 08/20] fix: only the help (version) option itself gives up its
 role in action()

An argument refused as a second help option kept the HELP action; changing its
action afterwards dropped the real help option.
---
 single_include/blet/args.h | 4 ++--
 src/argument.cpp           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index bf13e3d..33c8ea2 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3469,11 +3469,11 @@ inline Argument& Argument::flag(const char* flag__) {
 
 inline Argument& Argument::action(enum Action::eAction action__) {
     // reset help option
-    if (action_ == Action::HELP) {
+    if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
     }
     // reset version option
-    if (action_ == Action::VERSION) {
+    if (args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
diff --git a/src/argument.cpp b/src/argument.cpp
index 9fa4ed5..44f2fd4 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -251,11 +251,11 @@ Argument& Argument::flag(const char* flag__) {
 
 Argument& Argument::action(enum Action::eAction action__) {
     // reset help option
-    if (action_ == Action::HELP) {
+    if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
     }
     // reset version option
-    if (action_ == Action::VERSION) {
+    if (args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
-- 
2.43.0


From fc80dc1d1eda48bed790a2263f47a02e9ac665da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 09/20] fix: rebuild the defaults whenever the declaration or a
 new parse asks for it

- the elements of a previous parse stayed in the lists and were shown for an
  argument that is absent from the next command line;
- the default text of a group option was appended to on every call;
- a default text or list of an earlier kind survived nargs(), action() and
  defaults();
- an open-ended option given without any value showed its default text.
---
 single_include/blet/args.h | 16 ++++------------
 src/argument.cpp           | 16 ++++------------
 2 files changed, 8 insertions(+), 24 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 33c8ea2..96dda3d 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3731,9 +3731,11 @@ inline void Argument::typeConstructor_() {
 }
 
 inline void Argument::defaultsConstructor_() {
+    clear();
+    argument_ = "";
+    default_ = "";
     // default arguments
     if (nargs_ > 0 && defaults_.size() > 0) {
-        clear();
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
@@ -3797,21 +3799,11 @@ inline void Argument::defaultsConstructor_() {
 }
 
 inline void Argument::clear_() {
-    argument_ = default_;
     isNumber_ = false;
     number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
+    defaultsConstructor_();
 }
 
 } // namespace args
diff --git a/src/argument.cpp b/src/argument.cpp
index 44f2fd4..704668b 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -513,9 +513,11 @@ void Argument::typeConstructor_() {
 }
 
 void Argument::defaultsConstructor_() {
+    clear();
+    argument_ = "";
+    default_ = "";
     // default arguments
     if (nargs_ > 0 && defaults_.size() > 0) {
-        clear();
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
@@ -579,21 +581,11 @@ void Argument::defaultsConstructor_() {
 }
 
 void Argument::clear_() {
-    argument_ = default_;
     isNumber_ = false;
     number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
+    defaultsConstructor_();
 }
 
 } // namespace args
-- 
2.43.0


From ca591a86b1bff8495f332a8e0a259c9450228e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 10/20] fix: positional lists keep no default next to supplied
 values

---
 single_include/blet/args.h | 1 +
 src/args.cpp               | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 96dda3d..8c1cb6c 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3149,6 +3149,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
     }
     if (it != arguments_.end()) {
         Argument& argument = *(*it);
+        argument.clear();
         if (argument.type_ == Argument::POSITIONAL_ARGUMENT) {
             argument.argument_ = argv[*index];
         }
diff --git a/src/args.cpp b/src/args.cpp
index dd6a830..23f2814 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -596,6 +596,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
     }
     if (it != arguments_.end()) {
         Argument& argument = *(*it);
+        argument.clear();
         if (argument.type_ == Argument::POSITIONAL_ARGUMENT) {
             argument.argument_ = argv[*index];
         }
-- 
2.43.0


From 50e50b17da1aa41fdcaf4549bc362b6b6091a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 11/20] fix: forget the additional arguments of an earlier
 parse

---
 single_include/blet/args.h | 1 +
 src/args.cpp               | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 8c1cb6c..a69bb85 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2618,6 +2618,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
diff --git a/src/args.cpp b/src/args.cpp
index 23f2814..0685c79 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -65,6 +65,7 @@ void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
-- 
2.43.0


From 629dda3c9144076824f81391cbae273992aca7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 12/20] fix: forget a default list that is rejected

The refused list stayed declared and would be applied (and refused) again
later.
---
 single_include/blet/args.h | 3 +++
 src/argument.cpp           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index a69bb85..3d6bb0d 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3740,6 +3740,7 @@ inline void Argument::defaultsConstructor_() {
     if (nargs_ > 0 && defaults_.size() > 0) {
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
+                defaults_.clear();
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
@@ -3748,6 +3749,7 @@ inline void Argument::defaultsConstructor_() {
         }
         if (type_ == Argument::NUMBER_POSITIONAL_ARGUMENT || type_ == Argument::NUMBER_OPTION) {
             if (defaults_.size() != nargs_) {
+                defaults_.clear();
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
@@ -3774,6 +3776,7 @@ inline void Argument::defaultsConstructor_() {
         if (type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT || type_ == Argument::MULTI_NUMBER_OPTION ||
             type_ == Argument::MULTI_NUMBER_INFINITE_OPTION) {
             if (defaults_.size() % nargs_ != 0) {
+                defaults_.clear();
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
diff --git a/src/argument.cpp b/src/argument.cpp
index 704668b..ce39092 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -520,6 +520,7 @@ void Argument::defaultsConstructor_() {
     if (nargs_ > 0 && defaults_.size() > 0) {
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
+                defaults_.clear();
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
@@ -528,6 +529,7 @@ void Argument::defaultsConstructor_() {
         }
         if (type_ == Argument::NUMBER_POSITIONAL_ARGUMENT || type_ == Argument::NUMBER_OPTION) {
             if (defaults_.size() != nargs_) {
+                defaults_.clear();
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
@@ -554,6 +556,7 @@ void Argument::defaultsConstructor_() {
         if (type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT || type_ == Argument::MULTI_NUMBER_OPTION ||
             type_ == Argument::MULTI_NUMBER_INFINITE_OPTION) {
             if (defaults_.size() % nargs_ != 0) {
+                defaults_.clear();
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
-- 
2.43.0


From c36ea6be6d83f22226c092f0b96ebaae39993c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 13/20] fix: vector destinations receive exactly the values of
 the last parse

An absent list without defaults (or an open-ended option given without a
value) added one element converted from the empty string, and a second parse
appended to the elements of the first.
---
 include/blet/args/argument.h | 27 +++++++++++++++++++++++----
 single_include/blet/args.h   | 27 +++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index bb68735..9b94c5c 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -646,6 +646,23 @@ class Argument : public ArgumentElement {
         }
     }
 
+    bool isListType_() const {
+        switch (type_) {
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+                return true;
+            default:
+                return false;
+        }
+    }
+
     virtual void toDest_() {
         /* do nothing */
     }
@@ -748,12 +765,13 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isListType_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
         }
         else {
+            dest_.clear();
             if (!empty()) {
                 for (std::size_t i = 0; i < size(); ++i) {
                     if (!at(i).empty()) {
@@ -770,7 +788,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isListType_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -821,7 +839,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (!isListType_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -829,6 +847,7 @@ class ArgumentVectorVectorType : public Argument {
             toDestCustom_(dest_, isExist_, arguments);
         }
         else {
+            dest_.clear();
             if (!empty()) {
                 for (std::size_t i = 0; i < size(); ++i) {
                     std::vector<T> vectorDest;
@@ -847,7 +866,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (!isListType_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 3d6bb0d..562d4c9 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1197,6 +1197,23 @@ class Argument : public ArgumentElement {
         }
     }
 
+    inline bool isListType_() const {
+        switch (type_) {
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+                return true;
+            default:
+                return false;
+        }
+    }
+
     inline virtual void toDest_() {
         /* do nothing */
     }
@@ -1299,12 +1316,13 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isListType_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
         }
         else {
+            dest_.clear();
             if (!empty()) {
                 for (std::size_t i = 0; i < size(); ++i) {
                     if (!at(i).empty()) {
@@ -1321,7 +1339,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isListType_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -1372,7 +1390,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (!isListType_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -1380,6 +1398,7 @@ class ArgumentVectorVectorType : public Argument {
             toDestCustom_(dest_, isExist_, arguments);
         }
         else {
+            dest_.clear();
             if (!empty()) {
                 for (std::size_t i = 0; i < size(); ++i) {
                     std::vector<T> vectorDest;
@@ -1398,7 +1417,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (!isListType_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
-- 
2.43.0


From 50e2b90c9fa467b1029e0a36dcf3ed6863644d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 14/20] fix: a scalar destination of a list argument receives
 its string form

It received the text of the defaults even when values were supplied.
---
 include/blet/args/argument.h | 3 +++
 single_include/blet/args.h   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 9b94c5c..78d931e 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -717,6 +717,9 @@ class ArgumentType : public Argument {
 
   private:
     void toDest_() {
+        if (isListType_()) {
+            argument_ = getString();
+        }
         if (toDestCustom_ != NULL) {
             toDestCustom_(dest_, isExist_, argument_);
         }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 562d4c9..b225b97 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1268,6 +1268,9 @@ class ArgumentType : public Argument {
 
   private:
     inline void toDest_() {
+        if (isListType_()) {
+            argument_ = getString();
+        }
         if (toDestCustom_ != NULL) {
             toDestCustom_(dest_, isExist_, argument_);
         }
-- 
2.43.0


From 5c0dab67a78755fb00cd4245de83ca9e9540afb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 15/20] fix: positional arguments keep their declaration order
 when required is withdrawn

The list is sorted after every change and the comparison knew nothing of the
declaration order: required(true) followed by required(false) moved an
argument before the ones declared earlier.
---
 include/blet/args/args.h     |  2 ++
 include/blet/args/argument.h |  1 +
 single_include/blet/args.h   | 11 +++++++++--
 src/args.cpp                 |  2 ++
 src/argument.cpp             |  6 ++++--
 5 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/blet/args/args.h b/include/blet/args/args.h
index 1c0d5ec..74e826b 100644
--- a/include/blet/args/args.h
+++ b/include/blet/args/args.h
@@ -337,6 +337,8 @@ class Args : public Usage {
     std::list<Argument*> arguments_;
     std::map<std::string, Argument**> argumentFromName_;
 
+    std::size_t argumentOrder_;
+
     Argument* helpOption_;
     Argument* versionOption_;
 
diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 78d931e..d6b860c 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -692,6 +692,7 @@ class Argument : public ArgumentElement {
     bool isExist_;
     bool isRequired_;
     std::size_t count_;
+    std::size_t order_;
     std::size_t nargs_;
     std::string help_;
     std::string metavar_;
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index b225b97..ebafb86 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1243,6 +1243,7 @@ class Argument : public ArgumentElement {
     bool isExist_;
     bool isRequired_;
     std::size_t count_;
+    std::size_t order_;
     std::size_t nargs_;
     std::string help_;
     std::string metavar_;
@@ -1909,6 +1910,8 @@ class Args : public Usage {
     std::list<Argument*> arguments_;
     std::map<std::string, Argument**> argumentFromName_;
 
+    std::size_t argumentOrder_;
+
     Argument* helpOption_;
     Argument* versionOption_;
 
@@ -2620,6 +2623,7 @@ inline Args::Args() :
     binaryName_(),
     arguments_(),
     argumentFromName_(),
+    argumentOrder_(0),
     helpOption_(NULL),
     versionOption_(NULL),
     isAlternative_(false),
@@ -2827,6 +2831,7 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
         argument->sortNameOrFlags_();
     }
 
+    argument->order_ = argumentOrder_++;
     arguments_.push_back(argument);
     Argument** addrNewArgument = &(arguments_.back());
     argument->this_ = addrNewArgument;
@@ -3353,6 +3358,7 @@ inline Argument::Argument(Args& args) :
     isExist_(false),
     isRequired_(false),
     count_(0),
+    order_(0),
     nargs_(1),
     help_(),
     metavar_(),
@@ -3370,6 +3376,7 @@ inline Argument::Argument(const Argument& rhs) :
     isExist_(rhs.isExist_),
     isRequired_(rhs.isRequired_),
     count_(rhs.count_),
+    order_(rhs.order_),
     nargs_(rhs.nargs_),
     help_(rhs.help_),
     metavar_(rhs.metavar_),
@@ -3545,7 +3552,7 @@ inline void Argument::validFormatFlag_(const char* flag) {
 inline bool Argument::compareOption_(const Argument* first, const Argument* second) {
     if (first->isPositionnalArgument_() && first->isRequired_ && second->isPositionnalArgument_() &&
         second->isRequired_) {
-        return false;
+        return first->order_ < second->order_;
     }
     else if (first->isPositionnalArgument_() && first->isRequired_ && second->isPositionnalArgument_()) {
         return true;
@@ -3554,7 +3561,7 @@ inline bool Argument::compareOption_(const Argument* first, const Argument* seco
         return false;
     }
     else if (first->isPositionnalArgument_() && second->isPositionnalArgument_()) {
-        return false;
+        return first->order_ < second->order_;
     }
     else if (first->isPositionnalArgument_()) {
         return false;
diff --git a/src/args.cpp b/src/args.cpp
index 0685c79..7c86c34 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -45,6 +45,7 @@ Args::Args() :
     binaryName_(),
     arguments_(),
     argumentFromName_(),
+    argumentOrder_(0),
     helpOption_(NULL),
     versionOption_(NULL),
     isAlternative_(false),
@@ -252,6 +253,7 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
         argument->sortNameOrFlags_();
     }
 
+    argument->order_ = argumentOrder_++;
     arguments_.push_back(argument);
     Argument** addrNewArgument = &(arguments_.back());
     argument->this_ = addrNewArgument;
diff --git a/src/argument.cpp b/src/argument.cpp
index ce39092..e2ac99a 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -111,6 +111,7 @@ Argument::Argument(Args& args) :
     isExist_(false),
     isRequired_(false),
     count_(0),
+    order_(0),
     nargs_(1),
     help_(),
     metavar_(),
@@ -128,6 +129,7 @@ Argument::Argument(const Argument& rhs) :
     isExist_(rhs.isExist_),
     isRequired_(rhs.isRequired_),
     count_(rhs.count_),
+    order_(rhs.order_),
     nargs_(rhs.nargs_),
     help_(rhs.help_),
     metavar_(rhs.metavar_),
@@ -303,7 +305,7 @@ void Argument::validFormatFlag_(const char* flag) {
 bool Argument::compareOption_(const Argument* first, const Argument* second) {
     if (first->isPositionnalArgument_() && first->isRequired_ && second->isPositionnalArgument_() &&
         second->isRequired_) {
-        return false;
+        return first->order_ < second->order_;
     }
     else if (first->isPositionnalArgument_() && first->isRequired_ && second->isPositionnalArgument_()) {
         return true;
@@ -312,7 +314,7 @@ bool Argument::compareOption_(const Argument* first, const Argument* second) {
         return false;
     }
     else if (first->isPositionnalArgument_() && second->isPositionnalArgument_()) {
-        return false;
+        return first->order_ < second->order_;
     }
     else if (first->isPositionnalArgument_()) {
         return false;
-- 
2.43.0


From fe8fc683e0dea46c04316db804a86b373eacd9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 16/20] fix: a huge nargs wrapped around in the check of the
 remaining tokens

---
 single_include/blet/args.h | 10 +++++-----
 src/args.cpp               | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index ebafb86..36f94b5 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3026,7 +3026,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 break;
             case Argument::NUMBER_OPTION:
                 argument->clear();
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (*index >= maxIndex || argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 for (unsigned int i = *index + 1; i <= (*index + argument->nargs_); ++i) {
@@ -3077,7 +3077,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 if (argument->isExist_ == false) {
                     argument->clear();
                 }
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (*index >= maxIndex || argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
@@ -3097,7 +3097,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                     if (endOfInfiniteArgument_(argv[i])) {
                         break;
                     }
-                    if (i + argument->nargs_ > static_cast<unsigned int>(maxIndex)) {
+                    if (argument->nargs_ > static_cast<std::size_t>(maxIndex - i)) {
                         throw ParseArgumentException(option, "bad number of argument");
                     }
                     ArgumentElement newNumberArgument;
@@ -3182,7 +3182,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             argument.argument_ = argv[*index];
         }
         else if (argument.type_ == Argument::NUMBER_POSITIONAL_ARGUMENT) {
-            if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
+            if (argument.nargs_ > static_cast<std::size_t>(argc - *index)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
@@ -3207,7 +3207,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
                     break;
                 }
-                if (i + argument.nargs_ > static_cast<unsigned int>(argc)) {
+                if (argument.nargs_ > static_cast<std::size_t>(argc - i)) {
                     throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
diff --git a/src/args.cpp b/src/args.cpp
index 7c86c34..bb11128 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -448,7 +448,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 break;
             case Argument::NUMBER_OPTION:
                 argument->clear();
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (*index >= maxIndex || argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 for (unsigned int i = *index + 1; i <= (*index + argument->nargs_); ++i) {
@@ -499,7 +499,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 if (argument->isExist_ == false) {
                     argument->clear();
                 }
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (*index >= maxIndex || argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
@@ -519,7 +519,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                     if (endOfInfiniteArgument_(argv[i])) {
                         break;
                     }
-                    if (i + argument->nargs_ > static_cast<unsigned int>(maxIndex)) {
+                    if (argument->nargs_ > static_cast<std::size_t>(maxIndex - i)) {
                         throw ParseArgumentException(option, "bad number of argument");
                     }
                     ArgumentElement newNumberArgument;
@@ -604,7 +604,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             argument.argument_ = argv[*index];
         }
         else if (argument.type_ == Argument::NUMBER_POSITIONAL_ARGUMENT) {
-            if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
+            if (argument.nargs_ > static_cast<std::size_t>(argc - *index)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
@@ -629,7 +629,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
                     break;
                 }
-                if (i + argument.nargs_ > static_cast<unsigned int>(argc)) {
+                if (argument.nargs_ > static_cast<std::size_t>(argc - i)) {
                     throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
-- 
2.43.0


From f7d30749a793c09ce3e2588b209beeecfcacdc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 17/20] fix: const char* elements of a vector destination
 pointed into destroyed temporaries

---
 include/blet/args/argument.h | 4 ++--
 single_include/blet/args.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index d6b860c..877979e 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -253,9 +253,9 @@ class ArgumentElement : public std::vector<ArgumentElement> {
     /**
      * @brief Get the string argument
      *
-     * @return std::string
+     * @return const std::string&
      */
-    std::string getString() const {
+    const std::string& getString() const {
         return argument_;
     }
 
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 36f94b5..3b5fc70 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -804,9 +804,9 @@ class ArgumentElement : public std::vector<ArgumentElement> {
     /**
      * @brief Get the string argument
      *
-     * @return std::string
+     * @return const std::string&
      */
-    inline std::string getString() const {
+    inline const std::string& getString() const {
         return argument_;
     }
 
-- 
2.43.0


From ef862bbf1f16ba1ce80cd267fd2de734af442655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:29 +0000
Subject: [PATCH 18/20] fix: a refused nargs or action leaves the argument as
 it was

A positional whose nargs(0) was refused kept nargs 0 with groups to fill, and the
next parse never ended; an option whose action was refused kept the action and
lost its role as help or version option.
---
 include/blet/args/argument.h | 10 +++++++++-
 single_include/blet/args.h   | 24 ++++++++++++++++++++++--
 src/argument.cpp             | 14 +++++++++++++-
 3 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 877979e..abac2ac 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -512,8 +512,16 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     Argument& nargs(std::size_t nargs__) {
+        const std::size_t oldNargs = nargs_;
         nargs_ = nargs__;
-        typeConstructor_();
+        try {
+            typeConstructor_();
+        }
+        catch (...) {
+            // keep the argument as it was
+            nargs_ = oldNargs;
+            throw;
+        }
         defaultsConstructor_();
         return *this;
     }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 3b5fc70..4338b93 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1063,8 +1063,16 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     inline Argument& nargs(std::size_t nargs__) {
+        const std::size_t oldNargs = nargs_;
         nargs_ = nargs__;
-        typeConstructor_();
+        try {
+            typeConstructor_();
+        }
+        catch (...) {
+            // keep the argument as it was
+            nargs_ = oldNargs;
+            throw;
+        }
         defaultsConstructor_();
         return *this;
     }
@@ -3499,6 +3507,9 @@ inline Argument& Argument::flag(const char* flag__) {
 }
 
 inline Argument& Argument::action(enum Action::eAction action__) {
+    Argument* const oldHelpOption = args_.helpOption_;
+    Argument* const oldVersionOption = args_.versionOption_;
+    const enum Action::eAction oldAction = action_;
     // reset help option
     if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
@@ -3508,7 +3519,16 @@ inline Argument& Argument::action(enum Action::eAction action__) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
-    typeConstructor_();
+    try {
+        typeConstructor_();
+    }
+    catch (...) {
+        // keep the argument as it was
+        action_ = oldAction;
+        args_.helpOption_ = oldHelpOption;
+        args_.versionOption_ = oldVersionOption;
+        throw;
+    }
     defaultsConstructor_();
     return *this;
 }
diff --git a/src/argument.cpp b/src/argument.cpp
index e2ac99a..9351520 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -252,6 +252,9 @@ Argument& Argument::flag(const char* flag__) {
 }
 
 Argument& Argument::action(enum Action::eAction action__) {
+    Argument* const oldHelpOption = args_.helpOption_;
+    Argument* const oldVersionOption = args_.versionOption_;
+    const enum Action::eAction oldAction = action_;
     // reset help option
     if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
@@ -261,7 +264,16 @@ Argument& Argument::action(enum Action::eAction action__) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
-    typeConstructor_();
+    try {
+        typeConstructor_();
+    }
+    catch (...) {
+        // keep the argument as it was
+        action_ = oldAction;
+        args_.helpOption_ = oldHelpOption;
+        args_.versionOption_ = oldVersionOption;
+        throw;
+    }
     defaultsConstructor_();
     return *this;
 }
-- 
2.43.0


From 21f3633de12b37ed14ce684a17932a1674c6b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 19/20] fix: a copy of an argument deleted the validator a
 second time

---
 single_include/blet/args.h | 2 +-
 src/argument.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 4338b93..2df863a 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3389,7 +3389,7 @@ inline Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false), // a copy does not own the validator
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
diff --git a/src/argument.cpp b/src/argument.cpp
index 9351520..9cd1dca 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -134,7 +134,7 @@ Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false), // a copy does not own the validator
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
-- 
2.43.0


From 53d3903b2ba83a7c6ecdcdf26603cf23067ea09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 20/20] fix: an empty command line (argc 0) crashed the parse

---
 single_include/blet/args.h | 2 +-
 src/args.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 2df863a..a5fb1d0 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2670,7 +2670,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
         }
     }
     // get argv[0] if filename is empty
-    if (binaryName_.empty()) {
+    if (binaryName_.empty() && argc > 0) {
         binaryName_ = argv[0];
     }
     // save index of "--" if exist
diff --git a/src/args.cpp b/src/args.cpp
index bb11128..7b43a8d 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -84,7 +84,7 @@ void Args::parseArguments(int argc, char* argv[]) {
         }
     }
     // get argv[0] if filename is empty
-    if (binaryName_.empty()) {
+    if (binaryName_.empty() && argc > 0) {
         binaryName_ = argv[0];
     }
     // save index of "--" if exist
-- 
2.43.0

