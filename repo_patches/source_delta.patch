From 3eb35a13e40991d473a5311578991a2e4a229303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 01/16] fix: squashSpaces: do not read front()/back() of an
 empty string

---
 src/Split.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Split.cxx b/src/Split.cxx
index 3491f38..a102f54 100644
--- a/src/Split.cxx
+++ b/src/Split.cxx
@@ -45,8 +45,8 @@ namespace SoDa {
     size_t pos = 0;
 
     // trim the string. 
-    while(ret.front() == ' ') ret.erase(0, 1);
-    while(ret.back() == ' ') ret.pop_back();
+    while(!ret.empty() && ret.front() == ' ') ret.erase(0, 1);
+    while(!ret.empty() && ret.back() == ' ') ret.pop_back();
     
     while((pos = ret.find(' ', pos)) != std::string::npos) {
       if((pos < ret.length() - 1) && (ret[pos+1] == ' ')) {
-- 
2.43.0


From 44a84a6e553dd24b87d372676708014caf658b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 02/16] fix: Options::getPosArg: index equal to the count is
 out of range

---
 src/Options.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index 59fa849..ad4549e 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -78,7 +78,7 @@ namespace SoDa {
   }
 
   std::string Options::getPosArg(int idx) {
-    if(idx > pos_arg_vec.size()) return std::string("");
+    if(idx >= pos_arg_vec.size()) return std::string("");
     else return pos_arg_vec[idx]; 
   }
 
-- 
2.43.0


From 4267d28d8d5ea10617051d6bb28993af94398d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 03/16] fix: PropNode::getPropRecursive: descend into the child
 that was found

---
 src/PropertyTree.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 9494a63..7019e1e 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -73,8 +73,9 @@ namespace SoDa {
       return this; 
     }
     else if(dictionary.find(pathlist.front()) != dictionary.end()) {
+	PropNode * child = dictionary[pathlist.front()];
 	pathlist.pop_front();
-	return getPropRecursive(pathlist, orig_pathname, throw_exception);
+	return child->getPropRecursive(pathlist, orig_pathname, throw_exception);
     }
     else {
       if(throw_exception) {
-- 
2.43.0


From 26c9db0c1ee4919e81b6c537df8c84c5b4f3a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 04/16] fix: PropertyTree::get: report a missing path with
 false unless exceptions were requested

---
 include/PropertyTree.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 36b7fb4..bf8ed01 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -133,7 +133,7 @@ namespace SoDa {
       PropNode * pn = root->getProp(pathname, throw_exception); 
       
       if(pn == nullptr) {
-	throw PropNode::PropertyNotFound(pathname); 
+	return false; 
       }
       
       return pn->get<T>(v, throw_exception);
-- 
2.43.0


From 916c416a7899fbe861d2c609b583dbf4ad66da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 05/16] fix: Barrier::wait: read the barrier count under the
 lock

---
 src/Barrier.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index ca3d689..6c2e8b5 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -55,9 +55,10 @@ namespace SoDa {
     }
     
     // bump the waiting count
-    auto old_barrier_count = barrier_count; 
     {
       std::unique_lock<std::mutex> lock(mtx);
+      // only look at the barrier count while holding the lock. 
+      auto old_barrier_count = barrier_count; 
       
       waiting++; 
       if(waiting == num_waiters) {
-- 
2.43.0


From a88a465da693d496c2a9f4b11d34c5917410858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 06/16] fix: Barrier::wait: after a timeout all other and later
 waiters throw Corrupt

---
 src/Barrier.cxx | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index 6c2e8b5..a2ac9eb 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -59,6 +59,11 @@ namespace SoDa {
       std::unique_lock<std::mutex> lock(mtx);
       // only look at the barrier count while holding the lock. 
       auto old_barrier_count = barrier_count; 
+
+      // once a waiter has timed out, the barrier is broken for good.
+      if(corrupted) {
+	throw Barrier::Corrupt(*this);
+      }
       
       waiting++; 
       if(waiting == num_waiters) {
@@ -72,14 +77,14 @@ namespace SoDa {
 	// and does the right thing wrt the race between bumping
 	// the barrier_count and getting to the point where we're
 	// testing things. 
-	bool is_ok = cv.wait_for(lock, 
-				 timeout,
-				 [old_barrier_count, this]() {
-				   return old_barrier_count != barrier_count; 
-				 });
+	cv.wait_for(lock, 
+		    timeout,
+		    [old_barrier_count, this]() {
+		      return (old_barrier_count != barrier_count) || corrupted; 
+		    });
 	
-	// if the barrier hasn't advanced, then we timed out.
-	if (!is_ok) {
+	// if the barrier hasn't advanced, then somebody timed out.
+	if (old_barrier_count == barrier_count) {
 	  // that's really bad, as we've got a broken barrier.
 	  // If we return it will be truly broken, and everyone will
 	  // hang. Though it is likely that everyone is hung already.
@@ -90,8 +95,7 @@ namespace SoDa {
 	  else {
 	    // we're the first one to timout. 
 	    corrupted = true; 
-	    // set the barrier count to infinity, and wake everyone up
-	    barrier_count = 0xffffffff;
+	    // wake everyone up so that they can find out
 	    cv.notify_all();
 	    throw Barrier::Timeout(*this, timeout);
 	  }
-- 
2.43.0


From 904fdc0eaa5d94c33804641b1c2d23498be05650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 07/16] fix: Options::parse: start each parse without a pending
 signed value

---
 src/Options.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index ad4549e..b6b64c2 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -175,6 +175,8 @@ namespace SoDa {
 
   bool Options::parse(std::list<std::string> tokens) {
     OptBase_p arg_p = nullptr;
+    // an earlier parse may have stopped while waiting for a number
+    waiting_for_signed = false; 
     try {
     while(!tokens.empty()) {
       std::string tkn = tokens.front();
-- 
2.43.0


From 9b81ddda2eb7d556bf51aabfc85ccd6369aa3806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 08/16] fix: OptVec: vectors of signed numbers accept negative
 values

---
 include/Options.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Options.hxx b/include/Options.hxx
index 0f35472..993d612 100644
--- a/include/Options.hxx
+++ b/include/Options.hxx
@@ -586,7 +586,7 @@ posargs =
 	     const std::string & doc_str, 
 	     const std::function<bool(T)> & test_func = allGood, 
 	     const std::string & err_msg = std::string("")) :
-	OptBase(doc_str, err_msg, false), 
+	OptBase(doc_str, err_msg, std::is_signed<T>::value), 
 	argvec_p(v_vec), 
 	test_func(test_func)
       {
-- 
2.43.0


From 462067f6410a3da3fb50006d84ca490d1936af24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 09/16] fix: Options::parseKeyValue: split at the first '=',
 accept empty and missing values

---
 src/Options.cxx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index b6b64c2..d429ec8 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -317,17 +317,22 @@ namespace SoDa {
     for(auto kv_a : l_kvp) {
       auto kv = SoDa::squashSpaces(kv_a);
       
-      // now we've got a key=value pair.  Split that at the =
-      auto kvp = SoDa::split(kv, std::string("="));
-      auto key = kvp.front();
-      auto value = kvp.back();
+      // there is nothing to be done for an empty item (e.g. "a=1,,b=2")
+      if(kv.empty()) continue;
+
+      // now we've got a key=value pair.  Split that at the first =
+      auto eq_pos = kv.find('=');
+      auto key = kv.substr(0, eq_pos);
 
       // ok. now we're going to re-use some stuff from the "parse a
       // command line" functions
       key = "--" +  key;
 
       tknlist.push_back(key);
-      tknlist.push_back(value);
+      // an item without an = has no value
+      if(eq_pos != std::string::npos) {
+	tknlist.push_back(kv.substr(eq_pos + 1));
+      }
       // find the option name
     }
 
-- 
2.43.0


From 597b3a8be6ebc7220cdab8dd7210e1754d0bc06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 10/16] fix: Format::addI: no separator between the sign and
 the first digit

---
 src/Format.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 81c5fe9..43580ac 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -162,7 +162,8 @@ namespace SoDa {
       std::string newstr;
       int i = 0; 
       for(auto c : vstr) {
-	if(i == 3) {
+	// no separator between the sign and the first digit
+	if((i == 3) && (c != '-')) {
 	  newstr = sep + newstr;
 	  i = 0; 
 	}
-- 
2.43.0


From b912123b99a9324c694991336bf82f290db50f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 11/16] fix: Format::addF: keep the sign of an infinite value

---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 43580ac..156203a 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -406,7 +406,7 @@ namespace SoDa {
       return *this;
     }
     else if (std::isinf(v)) {
-      insertField(pad("inf", width));
+      insertField(pad((v < 0) ? "-inf" : "inf", width));
       return *this;
     }
     
-- 
2.43.0


From 9d22a9fed8874afc6d639bced19af2479203a46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 12/16] fix: Format::addF: use the radix separator for nonzero
 values in 'e' format

---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 156203a..4874f49 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -468,7 +468,7 @@ namespace SoDa {
 	// if we have no significant fraction digits,
 	// leave them off.
 	if(frac_wid > 0) {
-	  ss << '.' << std::setw(frac_wid) << std::right 
+	  ss << separator << std::setw(frac_wid) << std::right 
 	     << std::setfill('0') << frac_part;
 	}
 	// now the exponent
-- 
2.43.0


From c32476c08fc2861c59c38577bbc73e7d12f57b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 13/16] fix: Format_ext: pass 64 bit values and the fill
 character through

---
 include/Format.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Format.hxx b/include/Format.hxx
index d20e841..e2bd254 100644
--- a/include/Format.hxx
+++ b/include/Format.hxx
@@ -582,12 +582,12 @@ namespace SoDa {
      * a reference to the derived class.   So do all the other 
      * shadow methods here. 
      */
-    T & addI(int v, unsigned int width = 0, char sep = '\000') { 
-      Format::addI(v, width, sep);
+    T & addI(int v, unsigned int width = 0, char sep = '\000', char fill = '\000') { 
+      Format::addI(v, width, sep, fill);
       return *saved_ptr; 
     }
 
-    T & addU(unsigned int v, char fmt = 'd', unsigned int width = 0,
+    T & addU(unsigned long v, char fmt = 'd', unsigned int width = 0,
 	     char sep = '\000',
 	     unsigned int group_count = 4) {
       Format::addU(v, fmt, width, sep, group_count);
-- 
2.43.0


From 3858235901d939fb339019b0c16e4423db01bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 14/16] fix: MailBox: destroying an already ended subscription
 no longer terminates the program

---
 include/MailBox.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 81ec389..fb2c471 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -276,7 +276,12 @@ namespace SoDa {
       }
 
       ~SubscriptionCl() {
-	this_mbox->unsubscribe(subscriber_index);
+	try {
+	  this_mbox->unsubscribe(subscriber_index);
+	}
+	catch (MissingSubscriber & e) {
+	  // somebody has called unsubscribe for us already.
+	}
       }
 
       int getIndex(MailBox<T> * mbox) const {
-- 
2.43.0


From 65755fe772ea0a51dfdcae1953b9d55d09c52573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 15/16] fix: PropertyTreeYAML: keep the sequence node alive
 while iterating over it

---
 src/PropertyTreeYAML.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index d73b2ac..ed1a221 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -90,7 +90,10 @@ namespace SoDa {
 	// pass it along, as all prop tree nodes are lists or dictionaries
 	// or both
 	
-	for(auto n : it->second) {
+	// "it->second" belongs to a temporary that is gone by the
+	// time the loop starts: keep the node in a variable.
+	YAML::Node seq = it->second;
+	for(auto n : seq) {
 	  fillRecurse(n, prop);
 	}
       }
-- 
2.43.0


From 72f5f82c867ffff4aa89f3b48c7e8fb464e03d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:39 +0000
Subject: [PATCH 16/16] fix: engineering notation of very small and very large
 doubles

log1k kept the power of ten it had divided by as a double. That power
underflows to 0 for subnormal values and overflows for values close to
DBL_MAX, and the loops that follow then never end. Keep the number of
decimal digits instead.
---
 src/Format.cxx | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 4874f49..fa922ab 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -284,14 +284,16 @@ namespace SoDa {
     int ret = 0;
     v_norm = v; 
     // round it first
-    double remul = 1.0; 
+    // (count the decimal digits we moved: the power of ten itself may not
+    // be representable as a double.)
+    int digits = 0;
     while(v_norm >= 10.0) {
       v_norm = v_norm / 10.0;
-      remul = remul * 10.0;
+      digits++;
     }
     while(v_norm < 1.0) {
       v_norm = v_norm * 10.0;
-      remul = remul / 10.0;
+      digits--;
     }
     // now create the round incr
     double ri = 5;    
@@ -303,21 +305,17 @@ namespace SoDa {
     v_norm += ri;
     //std::cerr << "Now v_norm = " << v_norm << "\n";
 
-    // now restore v_norm to the original magnitude more or less
-    v_norm = v_norm * remul;
-
-    // ok, now take the log1k
-    if(v_norm < 1.0) {
-      while(v_norm < 1.0) {
-	ret -= 3; 
-	v_norm = v_norm * 1000.0; 
-      }
+    // now move the radix point so that the exponent is a multiple of three
+    while((digits % 3) != 0) {
+      v_norm = v_norm * 10.0;
+      digits--;
     }
-    else {
-      while(v_norm > 1000.0) {
-	ret += 3; 
-	v_norm = v_norm / 1000.0; 
-      }
+    ret = digits;
+
+    // the round-up may have carried us past the top
+    if(v_norm > 1000.0) {
+      v_norm = v_norm / 1000.0;
+      ret += 3;
     }
     return ret; 
   }
-- 
2.43.0

