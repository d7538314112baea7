From 4090056405db2bc4008f843cde58d215b6bdfa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:35 +0000
Subject: [PATCH 001/111] fix: entries of a dictionary whose last paradigm is
 empty in this direction were lost

The current paradigm was only reset when the paradigm had entries left, so after
an empty last paradigm every section entry was added to that paradigm.
---
 lttoolbox/compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index df49609..22d8730 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -193,8 +193,8 @@ Compiler::procParDef()
     {
       paradigms[current_paradigm].minimize();
       paradigms[current_paradigm].joinFinals();
-      current_paradigm.clear();
     }
+    current_paradigm.clear();
   }
 }
 
-- 
2.43.0


From 598205eb4723c5f310cb13912d9b60db24e43897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:56 +0000
Subject: [PATCH 002/111] fix: an entry's weight leaked to, or was lost from,
 entries sharing its prefix

insertSingleTransduction followed an existing arc whatever its weight.
---
 lttoolbox/transducer.cc | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 20d5377..37f3685 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -72,35 +72,29 @@ Transducer::insertSingleTransduction(int const tag, int const source, double con
 {
   if(transitions.find(source) != transitions.end())
   {
-    if(transitions[source].count(tag) == 1)
-    {
-      auto range = transitions[source].equal_range(tag);
-      return range.first->second.first;
-    }
-    else if(transitions[source].count(tag) == 0)
-    {
-      // new state
-      int state = newState();
-      transitions[source].insert({tag, std::make_pair(state, weight)});
-      return state;
-    }
-    else if(transitions[source].count(tag) == 2)
+    // only share an arc which has the same weight, and prefer one
+    // which is not a local cycle
+    bool local_cycle = false;
+    auto range = transitions[source].equal_range(tag);
+    for(; range.first != range.second; range.first++)
     {
-      // there's a local cycle, must be ignored and treated like in '1'
-      auto range = transitions[source].equal_range(tag);
-      for(; range.first != range.second; range.first++)
+      if(range.first->second.second == weight)
       {
         if(range.first->second.first != source)
         {
           return range.first->second.first;
         }
+        local_cycle = true;
       }
-      return -1;
     }
-    else
+    if(local_cycle)
     {
-      return -1;
+      return source;
     }
+    // new state
+    int state = newState();
+    transitions[source].insert({tag, std::make_pair(state, weight)});
+    return state;
   }
   else
   {
-- 
2.43.0


From 2ad4497cdf8c4153510c25bcdf2266aa53916f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:50 +0000
Subject: [PATCH 003/111] fix: count an entry's weight exactly once

It was added once per <p>, <i> or <ig> of the entry, and lost in entries made of
paradigms, regular expressions or empty elements only.
---
 lttoolbox/compiler.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 22d8730..3632f46 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -224,7 +224,7 @@ Compiler::matchTransduction(std::vector<int> const &pi,
 
   if(pi.size() == 0 && pd.size() == 0)
   {
-    state = t.insertNewSingleTransduction(alphabet(0, 0), state, default_weight);
+    state = t.insertNewSingleTransduction(alphabet(0, 0), state, entry_weight);
   }
   else
   {
@@ -863,14 +863,17 @@ Compiler::procEntry()
     if(name == COMPILER_PAIR_ELEM)
     {
       elements.push_back(procTransduction(weight));
+      weight = 0.0; // count it only once per entry
     }
     else if(name == COMPILER_IDENTITY_ELEM)
     {
       elements.push_back(procIdentity(weight, false));
+      weight = 0.0;
     }
     else if(name == COMPILER_IDENTITYGROUP_ELEM)
     {
       elements.push_back(procIdentity(weight, true));
+      weight = 0.0;
     }
     else if(name == COMPILER_REGEXP_ELEM)
     {
@@ -902,6 +905,14 @@ Compiler::procEntry()
     }
     else if(name == COMPILER_ENTRY_ELEM && type == XML_READER_TYPE_END_ELEMENT)
     {
+      if(weight != 0.0)
+      {
+        // only paradigms and regular expressions: nothing has taken it yet
+        EntryToken e;
+        std::vector<int> empty;
+        e.setSingleTransduction(empty, empty, weight);
+        elements.insert(elements.begin(), e);
+      }
       // insert elements into letter transducer
       insertEntryTokens(elements);
       return;
-- 
2.43.0


From 5c9b6241c860d5ff47feb495b2ddef2ca96db3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:20 +0000
Subject: [PATCH 004/111] fix: uninitialised weight of paradigm references in
 entries

---
 lttoolbox/entry_token.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/entry_token.cc b/lttoolbox/entry_token.cc
index c1f1d41..a0de66d 100644
--- a/lttoolbox/entry_token.cc
+++ b/lttoolbox/entry_token.cc
@@ -18,7 +18,8 @@
 
 
 EntryToken::EntryToken() :
-type(paradigm)
+type(paradigm),
+weight(0.0)
 {
 }
 
-- 
2.43.0


From 01ec7aa523ad6870807d805937b3455459af9902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:48 +0000
Subject: [PATCH 005/111] fix: weights of epsilon arcs were ignored in lookup

---
 lttoolbox/state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 64ac197..98e251c 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -296,7 +296,7 @@ State::epsilonClosure()
       {
         auto tmp = new_sequence();
         *tmp = *(state[i].sequence);
-        if(it2->second.out_tag[j] != 0)
+        if(it2->second.out_tag[j] != 0 || it2->second.out_weight[j] != 0.0)
         {
           tmp->push_back({it2->second.out_tag[j], it2->second.out_weight[j]});
         }
-- 
2.43.0


From 592198e6cbacc19f30363e5e27fc62e6d0d2b4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:21 +0000
Subject: [PATCH 006/111] fix: linking states dropped a parallel arc with
 another weight

---
 lttoolbox/transducer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 37f3685..f7e7da8 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -153,7 +153,8 @@ Transducer::linkStates(int const source, int const target,
     auto range = transitions[source].equal_range(tag);
     for(;range.first != range.second; range.first++)
     {
-      if(range.first->first == tag && range.first->second.first == target)
+      if(range.first->first == tag && range.first->second.first == target &&
+         range.first->second.second == weight)
       {
         return;
       }
-- 
2.43.0


From 9ca7e446c33548262049cfeaaaa7258370ec2a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:53 +0000
Subject: [PATCH 007/111] fix: buffer overflow when showing weights of 10000 or
 more

---
 lttoolbox/state.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 98e251c..5967701 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -546,9 +546,9 @@ State::filterFinalsArray(std::vector<UString>& result,
     if (!seen.insert(it.first).second) continue;
     result.push_back(it.first);
     if (display_weights) {
-      UChar w[16]{};
-      // if anyone wants a weight of 10000, this will not be enough
-      u_sprintf(w, "<W:%f>", it.second);
+      // large enough for any double
+      UChar w[512]{};
+      u_snprintf(w, 511, "<W:%f>", it.second);
       result.back() += w;
     }
   }
-- 
2.43.0


From 19a891d4c8c08e264bb6ebf15190faa4c2bc5860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:44 +0000
Subject: [PATCH 008/111] fix: final weights were lost when reversing,
 minimising or inserting a transducer

Only the weights of several final states, which joinFinals() turns into arcs,
survived, and determinize() looked weights up under the new state numbers.
---
 lttoolbox/transducer.cc | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index f7e7da8..be26832 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -138,7 +138,13 @@ Transducer::insertTransducer(int const source, Transducer &t,
 
   transitions[source].insert({epsilon_tag, std::make_pair(relation[t.initial], default_weight)});
 
-  return relation[t.finals.begin()->first];
+  int end = relation[t.finals.begin()->first];
+  if(t.finals.begin()->second != default_weight)
+  {
+    // the caller only gets a state, so the weight has to go on an arc
+    end = insertNewSingleTransduction(epsilon_tag, end, t.finals.begin()->second);
+  }
+  return end;
 }
 
 void
@@ -298,6 +304,14 @@ Transducer::joinFinals(int const epsilon_tag)
 void
 Transducer::determinize(int const epsilon_tag)
 {
+  // a set of states can only be given one final weight
+  for (auto& it : finals) {
+    if (it.second != finals.begin()->second) {
+      joinFinals(epsilon_tag);
+      break;
+    }
+  }
+
   std::vector<sorted_vector<int>> R(2);
   std::vector<sorted_vector<int>> Q_prime;
   std::map<sorted_vector<int>, int> Q_prime_inv;
@@ -318,11 +332,6 @@ Transducer::determinize(int const epsilon_tag)
   int initial_prime = 0;
   std::map<int, double> finals_prime;
 
-  if(isFinal(initial))
-  {
-    finals_prime.insert({0, default_weight});
-  }
-
   int t = 0;
 
   sorted_vector<int> finals_state;
@@ -338,12 +347,7 @@ Transducer::determinize(int const epsilon_tag)
     for(auto& it : R[t])
     {
       if (Q_prime[it].intersects(finals_state)) {
-        double w = default_weight;
-        auto it3 = finals.find(it);
-        if (it3 != finals.end()) {
-          w = it3->second;
-        }
-        finals_prime.insert({it, w});
+        finals_prime.insert({it, finals.begin()->second});
       }
 
       std::map<std::pair<int, double>, sorted_vector<int> > mymap;
@@ -715,9 +719,10 @@ Transducer::reverse(int const epsilon_tag)
   }
 
   int tmp = initial;
+  double weight = finals.begin()->second;
   initial = finals.begin()->first;
   finals.clear();
-  finals.insert({tmp, default_weight});
+  finals.insert({tmp, weight});
 }
 
 void
-- 
2.43.0


From a887a958efb7b1984f14d87ae82126f244cc8cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:30 +0000
Subject: [PATCH 009/111] fix: -L counted analyses of non-zero weight instead
 of weight classes

---
 lttoolbox/state.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 5967701..2ed7e04 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -492,15 +492,15 @@ State::NFinals(std::vector<std::pair<UString, double>> lf, int maxAnalyses, int
 
   for(auto it = lf.begin(); it != lf.end(); it++)
   {
-    double last_weight = 0.0000;
+    // analyses with equal weight constitute a class
+    if(it != lf.begin() && it->second != (it-1)->second)
+    {
+      maxWeightClasses--;
+    }
     if(maxAnalyses > 0 && maxWeightClasses > 0)
     {
       result.push_back({it->first, it->second});
       maxAnalyses--;
-      if(last_weight!=it->second)
-      {
-        maxWeightClasses--;
-      }
     }
     else break;
   }
-- 
2.43.0


From a4655bb18de153a989d91e123efaca0a4db96ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:59 +0000
Subject: [PATCH 010/111] fix: -N and -L counted repetitions of the same
 analysis

---
 lttoolbox/state.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 2ed7e04..e36fc9e 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -490,10 +490,12 @@ State::NFinals(std::vector<std::pair<UString, double>> lf, int maxAnalyses, int
 
   sort(lf.begin(), lf.end(), sort_weights<UString, double>());
 
+  sorted_vector<UString> seen;
   for(auto it = lf.begin(); it != lf.end(); it++)
   {
+    if(!seen.insert(it->first).second) continue;
     // analyses with equal weight constitute a class
-    if(it != lf.begin() && it->second != (it-1)->second)
+    if(!result.empty() && it->second != result.back().second)
     {
       maxWeightClasses--;
     }
@@ -541,9 +543,7 @@ State::filterFinalsArray(std::vector<UString>& result,
   response = NFinals(response, max_analyses, max_weight_classes);
 
   result.clear();
-  sorted_vector<UString> seen;
   for (auto& it : response) {
-    if (!seen.insert(it.first).second) continue;
     result.push_back(it.first);
     if (display_weights) {
       // large enough for any double
-- 
2.43.0


From 3a91d1515cf0d8c338c60fdf41dac09949326115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:27 +0000
Subject: [PATCH 011/111] fix: text after a repeating paradigm merged with the
 paradigm's own loop

---
 lttoolbox/transducer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index be26832..9852c99 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -139,9 +139,11 @@ Transducer::insertTransducer(int const source, Transducer &t,
   transitions[source].insert({epsilon_tag, std::make_pair(relation[t.initial], default_weight)});
 
   int end = relation[t.finals.begin()->first];
-  if(t.finals.begin()->second != default_weight)
+  if(t.finals.begin()->second != default_weight ||
+     !t.transitions[t.finals.begin()->first].empty())
   {
-    // the caller only gets a state, so the weight has to go on an arc
+    // the caller only gets a state, so the weight has to go on an arc;
+    // and what the caller appends must not merge with arcs that loop back
     end = insertNewSingleTransduction(epsilon_tag, end, t.finals.begin()->second);
   }
   return end;
-- 
2.43.0


From fcba238fda62c1428cde60d59f1f0154e3b56d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 012/111] fix: lt-expand did not escape a special character at
 the start of a text

---
 lttoolbox/expander.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 3ead68c..de73516 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -92,13 +92,13 @@ Expander::readString(UString &result, UStringView name)
   {
     UString value = XMLParseUtil::readValue(reader);
     UString escaped = "^$/<>{}\\*@#+~:"_u;
-    for(size_t i = value.size()-1; i > 0; i--)
+    for(auto& c : value)
     {
-      if(escaped.find(value[i]) != UString::npos) {
-        value.insert(value.begin()+i, '\\');
+      if(escaped.find(c) != UString::npos) {
+        result += '\\';
       }
+      result += c;
     }
-    result.append(value);
   }
   else if(name == Compiler::COMPILER_BLANK_ELEM)
   {
-- 
2.43.0


From 79de3d332de55628ab6234cd546d613e375ef7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 013/111] fix: lt-expand lost one-directional entries followed
 by another paradigm

---
 lttoolbox/expander.cc | 55 +++++++++++++------------------------------
 1 file changed, 16 insertions(+), 39 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index de73516..cc64771 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -61,6 +61,7 @@ Expander::procParDef()
   if(type != XML_READER_TYPE_END_ELEMENT)
   {
     current_paradigm = attrib(Compiler::COMPILER_N_ATTR);
+    paradigm[current_paradigm]; // defined, even if none of its entries is selected
   }
   else
   {
@@ -429,45 +430,21 @@ Expander::procEntry(UFILE* output)
         exit(EXIT_FAILURE);
       }
 
-      if(attribute == Compiler::COMPILER_RESTRICTION_LR_VAL)
-      {
-        if(paradigm[p].size() == 0 && paradigm_lr[p].size() == 0)
-        {
-          skip(name, Compiler::COMPILER_ENTRY_ELEM);
-          return;
-        }
-        EntList first = items_lr;
-        append(first, paradigm[p]);
-        append(items_lr, paradigm_lr[p]);
-        items_lr.insert(items_lr.end(), first.begin(), first.end());
-      }
-      else if(attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
-      {
-        if(paradigm[p].size() == 0 && paradigm_rl[p].size() == 0)
-        {
-          skip(name, Compiler::COMPILER_ENTRY_ELEM);
-          return;
-        }
-        EntList first = items_rl;
-        append(first, paradigm[p]);
-        append(items_rl, paradigm_rl[p]);
-        items_rl.insert(items_rl.end(), first.begin(), first.end());
-      }
-      else
-      {
-        if(paradigm_lr[p].size() > 0)
-        {
-          items_lr.insert(items_lr.end(), items.begin(), items.end());
-        }
-        if(paradigm_rl[p].size() > 0)
-        {
-          items_rl.insert(items_rl.end(), items.begin(), items.end());
-        }
-
-        append(items_lr, paradigm_lr[p]);
-        append(items_rl, paradigm_rl[p]);
-        append(items, paradigm[p]);
-      }
+      // a one-directional item stays so whatever follows; a bidirectional
+      // one becomes so when a one-directional paradigm entry follows
+      EntList first_lr = items_lr;
+      append(first_lr, paradigm[p]);
+      items_lr.insert(items_lr.end(), items.begin(), items.end());
+      append(items_lr, paradigm_lr[p]);
+      items_lr.insert(items_lr.end(), first_lr.begin(), first_lr.end());
+
+      EntList first_rl = items_rl;
+      append(first_rl, paradigm[p]);
+      items_rl.insert(items_rl.end(), items.begin(), items.end());
+      append(items_rl, paradigm_rl[p]);
+      items_rl.insert(items_rl.end(), first_rl.begin(), first_rl.end());
+
+      append(items, paradigm[p]);
     }
     else if(name == Compiler::COMPILER_ENTRY_ELEM && type == XML_READER_TYPE_END_ELEMENT)
     {
-- 
2.43.0


From cbd1582ec65b2c6095d918a9d85d8d3fc0e0f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:54 +0000
Subject: [PATCH 014/111] fix: lt-expand compared multi-valued variant
 attributes as one string

---
 lttoolbox/expander.cc | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index cc64771..778b9ad 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -18,6 +18,7 @@
 #include <lttoolbox/compiler.h>
 #include <lttoolbox/expander.h>
 #include <lttoolbox/xml_parse_util.h>
+#include <lttoolbox/string_utils.h>
 
 #include <cstdlib>
 #include <iostream>
@@ -335,13 +336,22 @@ Expander::procEntry(UFILE* output)
   UString varr      = this->attrib(Compiler::COMPILER_VR_ATTR);
   UString wsweight  = this->attrib(Compiler::COMPILER_WEIGHT_ATTR);
 
+  // these attributes hold one or more values, separated by spaces
+  auto matches = [](UStringView value, UStringView filter) {
+    if (value.empty()) return true;
+    for (auto& it : StringUtils::split(value, u" ")) {
+      if (it == filter) return true;
+    }
+    return false;
+  };
+  bool in_lr = attribute != Compiler::COMPILER_RESTRICTION_RL_VAL
+    && matches(varr, variant_right);
+  bool in_rl = attribute != Compiler::COMPILER_RESTRICTION_LR_VAL
+    && matches(varval, variant) && matches(varl, variant_left);
+
   UString myname;
   if(this->attrib(Compiler::COMPILER_IGNORE_ATTR) == Compiler::COMPILER_IGNORE_YES_VAL
-   || (!altval.empty() && altval != alt)
-   || (!varval.empty() && varval != variant && attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
-   || ((!varl.empty() && varl != variant_left) && (!varr.empty() && varr != variant_right))
-   || (!varl.empty() && varl != variant_left && attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
-   || (!varr.empty() && varr != variant_right && attribute == Compiler::COMPILER_RESTRICTION_LR_VAL))
+   || !matches(altval, alt) || !(in_lr || in_rl))
   {
     do
     {
@@ -359,14 +369,11 @@ Expander::procEntry(UFILE* output)
   }
 
   EntList items, items_lr, items_rl;
-  if(attribute == Compiler::COMPILER_RESTRICTION_LR_VAL
-   || (!varval.empty() && varval != variant && attribute != Compiler::COMPILER_RESTRICTION_RL_VAL)
-   || (!varl.empty() && varl != variant_left))
+  if(!in_rl)
   {
     items_lr.push_back(make_pair(""_u, ""_u));
   }
-  else if(attribute == Compiler::COMPILER_RESTRICTION_RL_VAL
-        || (!varr.empty() && varr != variant_right))
+  else if(!in_lr)
   {
     items_rl.push_back(make_pair(""_u, ""_u));
   }
-- 
2.43.0


From 978471871b02450b1d7c481b7442ea845d35d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:10 +0000
Subject: [PATCH 015/111] fix: text after the last analysed word was lost at
 the end of the input

---
 lttoolbox/fst_processor.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 7024e83..969cc7e 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1038,12 +1038,6 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         input_buffer.setPos(last);
         input_buffer.back(1);
       }
-      if(val == 0) {
-        if(!input_buffer.isEmpty()) {
-          input_buffer.setPos(last+1);
-        }
-      }
-
       current_state = initial_state;
       lf.clear();
       sf.clear();
@@ -1053,7 +1047,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       last_preblank = false;
     }
   }
-  while(val);
+  // what follows the last word may still have to be processed
+  while(val || !input_buffer.isEmpty());
 
   // print remaining blanks
   flushBlanks(output);
-- 
2.43.0


From baa43811124d7225b5657512b57fb627a3cd9f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:51 +0000
Subject: [PATCH 016/111] fix: end of input inside a block or escape, or after
 an ignored character, came out as U+FFFF

---
 lttoolbox/fst_processor.cc |  6 ++++++
 lttoolbox/input_file.cc    | 10 ++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 969cc7e..edb8fdb 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -197,6 +197,9 @@ FSTProcessor::readAnalysis(InputFile& input)
   while ((useIgnoredChars || useDefaultIgnoredChars) && ignored_chars.find(val) != ignored_chars.end())
   {
     val = input.get();
+    if(val == U_EOF) {
+      val = 0;
+    }
   }
 
   if(escaped_chars.find(val) != escaped_chars.end())
@@ -226,6 +229,9 @@ FSTProcessor::readAnalysis(InputFile& input)
 
       case '\\':
         val = input.get();
+        if(val == U_EOF) {
+          val = 0;
+        }
         input_buffer.add(static_cast<int32_t>(val));
         return val;
 
diff --git a/lttoolbox/input_file.cc b/lttoolbox/input_file.cc
index f296927..c7014e5 100644
--- a/lttoolbox/input_file.cc
+++ b/lttoolbox/input_file.cc
@@ -174,11 +174,11 @@ InputFile::readBlock(const UChar32 start, const UChar32 end)
   UChar32 c = 0;
   while (c != end && !eof()) {
     c = get();
-    if (c == '\0') {
+    if (c == '\0' || c == U_EOF) {
       break;
     }
     ret += c;
-    if (c == '\\') {
+    if (c == '\\' && peek() != U_EOF) {
       ret += get();
     }
   }
@@ -194,12 +194,14 @@ InputFile::finishWBlank()
   UChar32 c = 0;
   while (!eof()) {
     c = get();
-    if (c == '\0') {
+    if (c == '\0' || c == U_EOF) {
       break;
     }
     ret += c;
     if (c == '\\') {
-      ret += get();
+      if (peek() != U_EOF) {
+        ret += get();
+      }
     } else if (c == ']' && peek() == ']') {
       ret += get();
       break;
-- 
2.43.0


From 0907360f5bf07c5e92d3bda7c9af1a10784077f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:53 +0000
Subject: [PATCH 017/111] fix: an unterminated block swallowed the NUL that
 ends the segment

---
 lttoolbox/input_file.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/input_file.cc b/lttoolbox/input_file.cc
index c7014e5..51ecb9d 100644
--- a/lttoolbox/input_file.cc
+++ b/lttoolbox/input_file.cc
@@ -175,10 +175,11 @@ InputFile::readBlock(const UChar32 start, const UChar32 end)
   while (c != end && !eof()) {
     c = get();
     if (c == '\0' || c == U_EOF) {
+      unget(c);
       break;
     }
     ret += c;
-    if (c == '\\' && peek() != U_EOF) {
+    if (c == '\\' && peek() != U_EOF && peek() != '\0') {
       ret += get();
     }
   }
@@ -195,11 +196,12 @@ InputFile::finishWBlank()
   while (!eof()) {
     c = get();
     if (c == '\0' || c == U_EOF) {
+      unget(c);
       break;
     }
     ret += c;
     if (c == '\\') {
-      if (peek() != U_EOF) {
+      if (peek() != U_EOF && peek() != '\0') {
         ret += get();
       }
     } else if (c == ']' && peek() == ']') {
-- 
2.43.0


From 0a9ca83440016b1552ad3bf9183b47a24543c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:00 +0000
Subject: [PATCH 018/111] fix: the case of letters outside the BMP was not
 carried over to analyses

---
 lttoolbox/fst_processor.cc | 11 ++++++++---
 lttoolbox/state.cc         | 11 +++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index edb8fdb..3ebd939 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -473,9 +473,14 @@ FSTProcessor::filterFinals(const State& state, UStringView casefrom)
 {
   bool firstupper = false, uppercase = false;
   if (!dictionaryCase) {
-    firstupper = u_isupper(casefrom[0]);
-    uppercase = (casefrom.size() > 1 &&
-                 firstupper && u_isupper(casefrom[casefrom.size()-1]));
+    UChar32 first = 0, last = 0;
+    size_t start = 0, end = casefrom.size();
+    if (end > 0) {
+      U16_NEXT(casefrom.data(), start, end, first);
+      U16_PREV(casefrom.data(), 0, end, last);
+    }
+    firstupper = u_isupper(first);
+    uppercase = (end > 0 && firstupper && u_isupper(last));
   }
   return state.filterFinals(all_finals, alphabet, escaped_chars,
                             displayWeightsMode, maxAnalyses, maxWeightClasses,
diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index e36fc9e..5c9435d 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -533,9 +533,16 @@ State::filterFinalsArray(std::vector<UString>& result,
       cost += step.second;
     }
     if (it.dirty && firstupper) {
-      int loc = firstchar;
+      size_t loc = firstchar;
       if (temp[loc] == '~') loc++; // skip post-generation mark
-      temp[loc] = u_toupper(temp[loc]);
+      if (loc < temp.size()) {
+        size_t end = loc;
+        UChar32 c;
+        U16_NEXT(temp.data(), end, temp.size(), c);
+        UString upper;
+        upper += u_toupper(c);
+        temp.replace(loc, end - loc, upper);
+      }
     }
     response.push_back({temp, cost});
   }
-- 
2.43.0


From d2ef3eaa00c93237315af8caf1442b529622b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:39 +0000
Subject: [PATCH 019/111] fix: generation escaped the characters of unknown
 words a second time

---
 lttoolbox/fst_processor.cc | 47 +++++++++++++++++++++++++++++---------
 lttoolbox/fst_processor.h  |  6 +++++
 2 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 3ebd939..2f0e241 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -500,6 +500,23 @@ FSTProcessor::writeEscaped(UStringView str, UFILE *output)
   }
 }
 
+void
+FSTProcessor::writeEscapedContent(UStringView str, UFILE *output)
+{
+  for(size_t i = 0, limit = str.size(); i < limit; i++)
+  {
+    if(str[i] == '\\' && i + 1 < limit)
+    {
+      u_fputc(str[i++], output);
+    }
+    else if(escaped_chars.find(str[i]) != escaped_chars.end())
+    {
+      u_fputc('\\', output);
+    }
+    u_fputc(str[i], output);
+  }
+}
+
 size_t
 FSTProcessor::writeEscapedPopBlanks(UStringView str, UFILE *output)
 {
@@ -526,13 +543,17 @@ FSTProcessor::writeEscapedWithTags(UStringView str, UFILE *output)
 {
   for(unsigned int i = 0, limit = str.size(); i < limit; i++)
   {
-    if(str[i] == '<' && i >=1 && str[i-1] != '\\')
+    if(str[i] == '<' && i >=1)
     {
       write(str.substr(i), output);
       return;
     }
 
-    if(escaped_chars.find(str[i]) != escaped_chars.end())
+    if(str[i] == '\\' && i + 1 < limit)
+    {
+      u_fputc(str[i++], output);
+    }
+    else if(escaped_chars.find(str[i]) != escaped_chars.end())
     {
       u_fputc('\\', output);
     }
@@ -1289,14 +1310,14 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         skip = true;
         if (mode == gm_tagged_nm) {
           u_fputc('^', output);
-          writeEscaped(removeTags(rd.content), output);
+          writeEscapedContent(removeTags(rd.content), output);
           u_fputc('/', output);
           u_fputc(rd.mark, output);
           writeEscapedWithTags(rd.content, output);
           u_fputc('$', output);
         } else {
           if (mode != gm_clean) u_fputc(rd.mark, output);
-          writeEscaped(rd.content, output);
+          writeEscapedContent(rd.content, output);
         }
         break;
       case '@':
@@ -1304,7 +1325,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         switch (mode) {
         case gm_all:
           u_fputc(rd.mark, output);
-          writeEscaped(rd.content, output);
+          writeEscapedContent(rd.content, output);
           break;
         case gm_unknown:
         case gm_tagged:
@@ -1312,11 +1333,11 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           [[fallthrough]];
         case gm_bilgen:
         case gm_clean:
-          writeEscaped(removeTags(rd.content), output);
+          writeEscapedContent(removeTags(rd.content), output);
           break;
         case gm_tagged_nm:
           u_fputc('^', output);
-          writeEscaped(removeTags(rd.content), output);
+          writeEscapedContent(removeTags(rd.content), output);
           u_fputc('/', output);
           u_fputc(rd.mark, output);
           writeEscapedWithTags(rd.content, output);
@@ -1365,7 +1386,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           switch (mode) {
           case gm_all:
             u_fputc('#', output);
-            writeEscaped(rd.content, output);
+            writeEscapedContent(rd.content, output);
             break;
           case gm_carefulcase:
           case gm_unknown:
@@ -1374,11 +1395,11 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
             [[fallthrough]];
           case gm_bilgen:
           case gm_clean:
-            writeEscaped(removeTags(rd.content), output);
+            writeEscapedContent(removeTags(rd.content), output);
             break;
           case gm_tagged_nm:
             u_fputc('^', output);
-            writeEscaped(removeTags(rd.content), output);
+            writeEscapedContent(removeTags(rd.content), output);
             u_fputc('/', output);
             u_fputc('#', output);
             writeEscapedWithTags(rd.content, output);
@@ -2376,10 +2397,14 @@ FSTProcessor::removeTags(UStringView str)
 {
   for(unsigned int i = 0; i < str.size(); i++)
   {
-    if(str[i] == '<' && i >=1 && str[i-1] != '\\')
+    if(str[i] == '<' && i >=1)
     {
       return str.substr(0, i);
     }
+    if(str[i] == '\\')
+    {
+      i++;
+    }
   }
 
   return str;
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index c0a1c42..2ab1769 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -355,6 +355,12 @@ private:
    */
   void writeEscapedWithTags(UStringView str, UFILE *output);
 
+  /**
+   * Write the content of a lexical unit, whose characters are escaped
+   * as they were in the input, escaping the remaining special ones
+   */
+  void writeEscapedContent(UStringView str, UFILE *output);
+
   /**
    * Prints a word
    * @param sf surface form of the word
-- 
2.43.0


From b12e92d1d7c381f81453a987b1f03d0c43f175ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:07 +0000
Subject: [PATCH 020/111] fix: generation with careful case dropped words
 marked with @

---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 2f0e241..9654901 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1327,6 +1327,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           u_fputc(rd.mark, output);
           writeEscapedContent(rd.content, output);
           break;
+        case gm_carefulcase:
         case gm_unknown:
         case gm_tagged:
           u_fputc(rd.mark, output);
-- 
2.43.0


From 2c94191802dc972c1c3607a8c9530dc798c9d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:37 +0000
Subject: [PATCH 021/111] fix: generation took the case of escaped and non-BMP
 letters from the wrong characters

---
 lttoolbox/fst_processor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 9654901..07c81b6 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1366,8 +1366,8 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         if (current_state.isFinal(all_finals)) {
           bool firstupper = false, uppercase = false;
           if (!dictionaryCase) {
-            uppercase = rd.content.size() > 1 && u_isupper(rd.content[1]);
-            firstupper= u_isupper(rd.content[0]);
+            uppercase = rd.symbols.size() > 1 && u_isupper(rd.symbols[1]);
+            firstupper= !rd.symbols.empty() && u_isupper(rd.symbols[0]);
           }
 
           if (mode == gm_tagged || mode == gm_tagged_nm) {
-- 
2.43.0


From 240f01990e6405fe1aea64d561bc87be2838921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:19 +0000
Subject: [PATCH 022/111] fix: a negated character set in a regular expression
 also matched the empty string

---
 lttoolbox/regexp_compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/regexp_compiler.cc b/lttoolbox/regexp_compiler.cc
index 18c7bee..b9f8ab0 100644
--- a/lttoolbox/regexp_compiler.cc
+++ b/lttoolbox/regexp_compiler.cc
@@ -341,7 +341,7 @@ RegexpCompiler::Esp()
     consume(']');
     Postop();
 
-    for(int i = 0; i < 256 ;i++)
+    for(int i = 1; i < 256 ;i++)
     {
       if(brackets.find(i) == brackets.end())
       {
-- 
2.43.0


From 9a7bb306d7c27032ffb9a31a10ebf0e37e190319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:33 +0000
Subject: [PATCH 023/111] fix: the blank of a postblank or preblank entry was
 added next to a longer match of another section

---
 lttoolbox/fst_processor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 07c81b6..b7395e5 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -860,6 +860,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         }
         lf = filterFinals(current_state, sf);
         last_incond = true;
+        last_postblank = false;
+        last_preblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -870,7 +872,9 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
           current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
         }
         lf = filterFinals(current_state, sf);
+        last_incond = false;
         last_postblank = true;
+        last_preblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -881,6 +885,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
           current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
         }
         lf = filterFinals(current_state, sf);
+        last_incond = false;
+        last_postblank = false;
         last_preblank = true;
         last = input_buffer.getPos();
         last_size = sf.size();
-- 
2.43.0


From 1ad8877904f92ffcf6d5258adc2d2890f00ee166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:37 +0000
Subject: [PATCH 024/111] fix: bilingual lookup dropped a leading =, % or @ of
 the lemma

---
 lttoolbox/fst_processor.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index b7395e5..455e609 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1797,6 +1797,17 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
 
     auto& symbols = reader.readings[index].symbols;
 
+    bool firstupper = (!symbols.empty() && symbols[0] > 0 && u_isupper(symbols[0]));
+    bool uppercase = (firstupper && symbols.size() > 1 &&
+                      symbols[1] > 0 && u_isupper(symbols[1]));
+
+    // other than as marks, these characters can begin (or be) the lemma
+    UChar32 mark = reader.readings[index].mark;
+    if (mark == '#' || mark == '@' || mark == '%' ||
+        (mark == '=' && (symbols.empty() || alphabet.isTag(symbols[0])))) {
+      symbols.insert(symbols.begin(), mark);
+    }
+
     if (symbols.empty()) {
       u_fputc('$', output);
       maybeFlush(output, reader.at_null);
@@ -1805,14 +1816,9 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
 
     State current_state = initial_state;
 
-    bool firstupper = (symbols[0] > 0 && u_isupper(symbols[0]));
-    bool uppercase = (firstupper && symbols.size() > 1 &&
-                      symbols[1] > 0 && u_isupper(symbols[1]));
-
     bool seenTags = false;
     size_t queue_start = 0;
     std::vector<UString> result;
-    if (reader.readings[index].mark == '#') current_state.step('#');
     for (size_t i = 0; i < symbols.size(); i++) {
       seenTags = seenTags || alphabet.isTag(symbols[i]);
       UString source;
@@ -1840,7 +1846,6 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
     if(result.empty() && (mode == gm_bilgen || mode == gm_all)) {
       // Retry looking up lower-cased version, this time not using alt-override (which leads to state explosions)
       State current_state = initial_state;
-      if (reader.readings[index].mark == '#') current_state.step('#');
       bool seenTags = false;
       for (size_t i = 0; i < symbols.size(); i++) {
         seenTags = seenTags || alphabet.isTag(symbols[i]);
@@ -1867,10 +1872,6 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
 
     UString source;
     size_t queue_pos = 0;
-    if (reader.readings[index].mark == '#') {
-      source += '#';
-      queue_pos = 1;
-    }
     for (size_t i = 0; i < symbols.size(); i++) {
       if (isEscaped(symbols[i]) || (i == 0 && symbols[i] == '*')) source += '\\';
       alphabet.getSymbol(source, symbols[i]);
-- 
2.43.0


From 9ae170c50a48b34b0ddb24b03c19a00a5905d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:09 +0000
Subject: [PATCH 025/111] fix: -O dropped a leading *, @, #, = or % of the
 surface form

---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 455e609..3247358 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1773,6 +1773,7 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
 
     if (biltransSurfaceFormsKeep && !reader.readings.empty()) {
       u_fputc('^', output);
+      if (reader.readings[0].mark) u_fputc(reader.readings[0].mark, output);
       write(reader.readings[0].content, output);
       u_fputc((reader.readings.size() > 1 ? '/' : '$'), output);
     }
-- 
2.43.0


From ad4de7ce40a435059e1931475c0e548bab0f1ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:04 +0000
Subject: [PATCH 026/111] fix: characters outside the BMP were tokenised as
 tags

---
 lttoolbox/alphabet.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index 0531005..a64e5a5 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -313,8 +313,13 @@ Alphabet::tokenize(UStringView str) const
 {
   std::vector<int32_t> ret;
   for (auto sym : symbol_iter(str)) {
-    if (sym.size() > 1) ret.push_back(operator()(sym));
-    else ret.push_back(static_cast<int32_t>(sym[0]));
+    if (sym.size() > 1 && sym[0] == '<') {
+      ret.push_back(operator()(sym));
+    } else {
+      UChar32 c;
+      U16_GET(sym.data(), 0, 0, sym.size(), c);
+      ret.push_back(static_cast<int32_t>(c));
+    }
   }
   return ret;
 }
-- 
2.43.0


From 09d1b2daea22bc87895d7ec42d7faaad9b0ae7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:30 +0000
Subject: [PATCH 027/111] fix: transliteration continued at the wrong place
 after a replacement of another length

---
 lttoolbox/fst_processor.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 3247358..2a0a565 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1565,9 +1565,11 @@ FSTProcessor::transliteration(InputFile& input, UFILE *output)
           if (c == static_cast<int32_t>(' ')) lf_spaces++;
         }
         space_diff += (lf_spaces - sf_spaces);
-        size_t last_start = start_pos;
-        start_pos = match_pos - i;
-        if (start_pos == last_start) start_pos++;
+        // continue where the common suffix begins in the new word, but after
+        // its first character if that is where the match began
+        bool rematch = (match_pos - i == start_pos);
+        start_pos += match.size() - i;
+        if (rematch) start_pos++;
         cur_pos = start_pos;
         cur_word = 0;
       }
-- 
2.43.0


From 413204317af15da51a431910475bd59925d0b070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:56 +0000
Subject: [PATCH 028/111] fix: transliteration and postgeneration ended the
 text with U+FFFF

---
 lttoolbox/fst_processor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 2a0a565..acea5e5 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -379,7 +379,7 @@ FSTProcessor::readTransliterationWord(InputFile& input)
           word.push_back(static_cast<int32_t>(input.get()));
         } else if (c == '<') {
           word.push_back(alphabet(input.readBlock('<', '>')));
-        } else if (c == '\0') {
+        } else if (c == '\0' || c == U_EOF) {
           input.unget(c);
           break;
         } else {
@@ -394,7 +394,7 @@ FSTProcessor::readTransliterationWord(InputFile& input)
   } else {
     while (!input.eof()) {
       UChar32 c = input.get();
-      if (u_isspace(c) || c == '[' || c == '\0') {
+      if (u_isspace(c) || c == '[' || c == '\0' || c == U_EOF) {
         input.unget(c);
         break;
       } else if (c == '\\') {
-- 
2.43.0


From 11ed772f53b79c11829d67d6920787c67d7668ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:41 +0000
Subject: [PATCH 029/111] fix: transliteration dropped tags that are not in the
 dictionary

---
 lttoolbox/fst_processor.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index acea5e5..6e9993b 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -363,6 +363,11 @@ FSTProcessor::readTransliterationWord(InputFile& input)
 
   UString wblank;
   std::vector<int32_t> word;
+  auto readTag = [&]() {
+    UString tag = input.readBlock('<', '>');
+    alphabet.includeSymbol(tag); // or it would be lost if it is unknown
+    return alphabet(tag);
+  };
   if (input.peek() == '[') {
     input.get();
     wblank = input.finishWBlank();
@@ -378,7 +383,7 @@ FSTProcessor::readTransliterationWord(InputFile& input)
         } else if (c == '\\') {
           word.push_back(static_cast<int32_t>(input.get()));
         } else if (c == '<') {
-          word.push_back(alphabet(input.readBlock('<', '>')));
+          word.push_back(readTag());
         } else if (c == '\0' || c == U_EOF) {
           input.unget(c);
           break;
@@ -400,7 +405,7 @@ FSTProcessor::readTransliterationWord(InputFile& input)
       } else if (c == '\\') {
         word.push_back(static_cast<int32_t>(input.get()));
       } else if (c == '<') {
-        word.push_back(alphabet(input.readBlock('<', '>')));
+        word.push_back(readTag());
       } else {
         word.push_back(static_cast<int32_t>(c));
       }
-- 
2.43.0


From 11c87217dd03c824409ed05ebed53c6172742be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:28 +0000
Subject: [PATCH 030/111] fix: a trailing backslash swallowed the NUL that ends
 the segment in transliteration

---
 lttoolbox/fst_processor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 6e9993b..8b78abc 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -380,7 +380,7 @@ FSTProcessor::readTransliterationWord(InputFile& input)
         if (c == '[') {
           input.unget(c);
           break;
-        } else if (c == '\\') {
+        } else if (c == '\\' && input.peek() != '\0' && input.peek() != U_EOF) {
           word.push_back(static_cast<int32_t>(input.get()));
         } else if (c == '<') {
           word.push_back(readTag());
@@ -402,7 +402,7 @@ FSTProcessor::readTransliterationWord(InputFile& input)
       if (u_isspace(c) || c == '[' || c == '\0' || c == U_EOF) {
         input.unget(c);
         break;
-      } else if (c == '\\') {
+      } else if (c == '\\' && input.peek() != '\0' && input.peek() != U_EOF) {
         word.push_back(static_cast<int32_t>(input.get()));
       } else if (c == '<') {
         word.push_back(readTag());
-- 
2.43.0


From 8279e756686da64bc3e7a3ccd406ec4dc5f0757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:56 +0000
Subject: [PATCH 031/111] fix: an unmatched character outside the BMP was cut
 in half in analysis

---
 lttoolbox/fst_processor.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 8b78abc..c8469c8 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1033,8 +1033,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         auto limit = firstNotAlpha(sf);
         if(limit.i_codepoint == 0)
         {
-          input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          input_buffer.setPos(last_start);
+          printChar(input_buffer.next(), output);
         }
         else
         {
@@ -1056,8 +1056,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         auto limit = firstNotAlpha(sf);
         if(limit.i_codepoint == 0)
         {
-          input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          input_buffer.setPos(last_start);
+          printChar(input_buffer.next(), output);
         }
         else
         {
-- 
2.43.0


From abde1a73d18077dc5d3066f99709d5cc459209ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:33 +0000
Subject: [PATCH 032/111] fix: an unknown tag in the text ended the analysis
 and dropped what follows

---
 lttoolbox/fst_processor.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index c8469c8..5c5a66b 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -207,7 +207,11 @@ FSTProcessor::readAnalysis(InputFile& input)
     switch(val)
     {
       case '<':
-        altval = alphabet(input.readBlock('<', '>'));
+        {
+          UString tag = input.readBlock('<', '>');
+          alphabet.includeSymbol(tag); // or it would end the text if it is unknown
+          altval = alphabet(tag);
+        }
         input_buffer.add(altval);
         return altval;
 
@@ -631,7 +635,11 @@ FSTProcessor::printSpace(UChar32 val, UFILE *output)
 void
 FSTProcessor::printChar(UChar32 val, UFILE* output)
 {
-  if (u_isspace(val)) {
+  if (alphabet.isTag(val)) {
+    UString tag;
+    alphabet.getSymbol(tag, val);
+    write(tag, output);
+  } else if (u_isspace(val)) {
     if (blankqueue.size() > 0) {
       write(blankqueue.front(), output);
       blankqueue.pop();
-- 
2.43.0


From 091fd8a06a0f84af784ec74e5946b075b05c0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:07 +0000
Subject: [PATCH 033/111] fix: alphabetic characters outside the BMP were
 truncated when rewriting a transducer

---
 lttoolbox/file_utils.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 31608cc..ab1712a 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -90,7 +90,11 @@ writeTransducerSet(FILE* output, const std::set<UChar32>& letters,
                    Alphabet& alpha,
                    std::map<UString, Transducer>& trans)
 {
-  writeTransducerSet(output, UString(letters.begin(), letters.end()), alpha, trans);
+  UString str;
+  for (auto& it : letters) {
+    str += it;
+  }
+  writeTransducerSet(output, str, alpha, trans);
 }
 
 void
-- 
2.43.0


From ce6b4e922c3ad9251cc8e81445ea1029fd44c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:52 +0000
Subject: [PATCH 034/111] fix: trimming mixed up the tags of multiwords with
 different invariable parts

---
 lttoolbox/transducer.cc | 69 ++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 9852c99..2403655 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -882,70 +882,66 @@ Transducer::copyWithTagsFirst(int start,
   Transducer new_t;
   Transducer lemq;
 
-  std::map<int, int> states_this_new;
-  states_this_new.insert({start, new_t.initial});
+  typedef std::pair<int, int> SearchState;
+  // Each searchstate in the stack is a state in this FST, along
+  // with the last state of the lemq, or -1 if we are still reading it
+  // (states after different lemqs have to be kept apart in new_t)
+  std::map<SearchState, int> states_this_new;
   std::map<int, int> states_this_lemq;
-  states_this_new.insert({start, lemq.initial});
+  states_this_lemq.insert({start, lemq.initial});
 
-  typedef std::pair<int, int> SearchState;
-  // Each searchstate in the stack is a transition in this FST, along
-  // with the last reached state of the lemq
   std::vector<SearchState> todo;
   std::set<SearchState> seen;
   std::set<SearchState> finally;
   SearchState current;
-  todo.push_back({start,start});
+  todo.push_back({start,-1});
 
   while(!todo.empty()) {
     current = todo.back();
     todo.pop_back();
     seen.insert(current);
-    int this_src = current.first, this_lemqlast = current.second;
+    int this_src = current.first;
+
+    if(isFinal(this_src))
+    {
+      finally.insert(current);
+    }
 
     for(auto& trans_it : transitions[this_src])
     {
+      int this_lemqlast = current.second;
       int label = trans_it.first, this_trg = trans_it.second.first;
       double this_wt = trans_it.second.second;
       int left_symbol = alphabet.decode(label).first;
 
       // Anything after the first tag goes before the lemq, whether
       // epsilon or alphabetic (might be a hack to force trimming). If
-      // the lemqlast state is already set to something other than
-      // this_src, then we've seen the first tag (and are done reading
-      // lemq).
-      if(alphabet.isTag(left_symbol) || (this_src != this_lemqlast))
+      // the lemqlast state is already set, then we've seen the first
+      // tag (and are done reading lemq).
+      if(alphabet.isTag(left_symbol) || this_lemqlast != -1)
       {
         int new_src;
-        if(this_src == this_lemqlast)
+        if(this_lemqlast == -1)
         {
           // We've reached the first tag
-          new_src = states_this_new[start];
-          lemq.finals.insert({this_lemqlast, default_weight});
+          new_src = new_t.initial;
+          this_lemqlast = this_src;
         }
         else
         {
-          if(states_this_new.find(this_src) == states_this_new.end())
-          {
-            states_this_new.insert({this_src, new_t.newState()});
-          }
-          new_src = states_this_new[this_src];
-        }
-
-        if(states_this_new.find(this_trg) == states_this_new.end())
-        {
-          states_this_new.insert({this_trg, new_t.newState()});
+          new_src = states_this_new[current];
         }
-        int new_trg = states_this_new[this_trg];
-        new_t.linkStates(new_src, new_trg, label, this_wt);
 
-        if(isFinal(this_src))
+        SearchState next{this_trg, this_lemqlast};
+        if(states_this_new.find(next) == states_this_new.end())
         {
-          finally.insert({this_src, this_lemqlast});
+          states_this_new.insert({next, new_t.newState()});
         }
+        new_t.linkStates(new_src, states_this_new[next], label, this_wt);
 
-        if(seen.find(std::make_pair(this_trg, this_lemqlast)) == seen.end())
+        if(seen.find(next) == seen.end())
         {
-          todo.push_back({this_trg, this_lemqlast});
+          todo.push_back(next);
         }
       }
       else
@@ -958,9 +954,9 @@ Transducer::copyWithTagsFirst(int start,
         }
         int lemq_trg = states_this_lemq[this_trg];
         lemq.linkStates(lemq_src, lemq_trg, label, this_wt);
-        if(seen.find({this_trg, this_trg}) == seen.end())
+        if(seen.find({this_trg, -1}) == seen.end())
         {
-          todo.push_back({this_trg, this_trg});
+          todo.push_back({this_trg, -1});
         }
       }
     } // end for transitions
@@ -968,8 +964,9 @@ Transducer::copyWithTagsFirst(int start,
 
   for(auto& it : finally)
   {
-    int last_tag = it.first,
-      this_lemqlast = it.second;
+    // without any tag, the lemq ends in the final state itself
+    int last_tag = (it.second == -1 ? new_t.initial : states_this_new[it]),
+      this_lemqlast = (it.second == -1 ? it.first : it.second);
     // copy lemq, letting this_lemqlast be the only final state in newlemq
     Transducer newlemq = Transducer(lemq);
     newlemq.finals.clear();
@@ -977,7 +974,7 @@ Transducer::copyWithTagsFirst(int start,
     newlemq.minimize();
 
     int group_start = new_t.newState();
-    new_t.linkStates(states_this_new[last_tag], group_start, group_label, default_weight);
+    new_t.linkStates(last_tag, group_start, group_label, default_weight);
 
     // append newlemq into the group after last_tag:
     new_t.finals.insert({new_t.insertTransducer(group_start, newlemq), default_weight});
-- 
2.43.0


From 14b7a70708eca57b35e964bcf27b66afa70b3ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:58 +0000
Subject: [PATCH 035/111] fix: trimming took the wrong part of a joined
 analysis for the head of an invariable part

---
 lttoolbox/transducer.cc | 47 ++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 2403655..a3d85ea 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1055,7 +1055,7 @@ Transducer::trim(Transducer &trimmer,
   typedef std::pair<int, std::pair<int, int > > SearchState;
   // first: currently searched state in this;
   // second.first: currently matched trimmer state;
-  // second.second: last matched trimmer state before a + restart (or the same second.first if no + is seen yet).
+  // second.second: last matched trimmer state before a + restart (or -1 if no + is seen yet).
   // When several trimmer-states match from one this-state, we just get several triplets.
 
   // State numbers will differ in thisXtrimmer transducers and the trimmed:
@@ -1065,7 +1065,7 @@ Transducer::trim(Transducer &trimmer,
   std::vector<SearchState> todo;
   std::set<SearchState> seen;
   SearchState current;
-  SearchState next{initial, {trimmer.initial, trimmer.initial}};
+  SearchState next{initial, {trimmer.initial, -1}};
   todo.push_back(next);
   states_this_trimmed.insert({next, trimmed.initial});
 
@@ -1093,8 +1093,7 @@ Transducer::trim(Transducer &trimmer,
     seen.insert(current);
     int this_src        = current.first,
         trimmer_src     = current.second.first,
-        trimmer_preplus = current.second.second,
-        trimmer_preplus_next = trimmer_preplus;
+        trimmer_preplus = current.second.second;
 
     if(states_this_trimmed.find(current) == states_this_trimmed.end()) {
       std::cerr <<"Error: couldn't find "<<this_src<<","<<trimmer_src<<" in state map"<< std::endl;
@@ -1109,14 +1108,9 @@ Transducer::trim(Transducer &trimmer,
       double trimmer_wt = trimmer_trans_it.second.second;
       int32_t trimmer_left = trimmer_a.decode(trimmer_label).first;
 
-      if(trimmer_preplus == trimmer_src) {
-        // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-        trimmer_preplus_next = trimmer_trg;
-      }
-
       if(trimmer_left == 0)
       {
-        next = std::make_pair(this_src, std::make_pair(trimmer_trg, trimmer_preplus_next));
+        next = std::make_pair(this_src, std::make_pair(trimmer_trg, trimmer_preplus));
         if(seen.find(next) == seen.end())
         {
           todo.push_back(next);
@@ -1143,10 +1137,8 @@ Transducer::trim(Transducer &trimmer,
 
       if (sym_wb.count(this_right)) {
         special = (this_right != static_cast<int32_t>('+'));
-        if(trimmer_preplus == trimmer_src) {
-          // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-          trimmer_preplus_next = trimmer_src; // not _trg when join!
-        }
+        // Keep the old preplus state if it was set:
+        int trimmer_preplus_next = (trimmer_preplus == -1 ? trimmer_src : trimmer_preplus);
         // Go to the start in trimmer, but record where we restarted from in case we later see a #:
         next = std::make_pair(this_trg, std::make_pair(trimmer.initial, trimmer_preplus_next));
         if(seen.find(next) == seen.end())
@@ -1169,14 +1161,7 @@ Transducer::trim(Transducer &trimmer,
       else if (sym_cmp_or_eps.count(this_right)) {
         special = true;
         // Stay put in the trimmer FST
-        int trimmer_trg = trimmer_src;
-
-        if(trimmer_preplus == trimmer_src) {
-          // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-          trimmer_preplus_next = trimmer_trg;
-        }
-
-        next = std::make_pair(this_trg, std::make_pair(trimmer_trg, trimmer_preplus_next));
+        next = std::make_pair(this_trg, std::make_pair(trimmer_src, trimmer_preplus));
         if(seen.find(next) == seen.end())
         {
           todo.push_back(next);
@@ -1197,24 +1182,20 @@ Transducer::trim(Transducer &trimmer,
         // Loop through non-epsilon arcs from the live state of trimmer
 
         // If we see a hash/group, we may have to rewind our trimmer state first:
-        if(this_right == static_cast<int32_t>('#') &&
-           trimmer_preplus != trimmer_src)
+        int trimmer_match_src = trimmer_src,
+            trimmer_preplus_next = trimmer_preplus;
+        if(this_right == static_cast<int32_t>('#') && trimmer_preplus != -1)
         {
-          states_this_trimmed.insert({std::make_pair(this_src, std::make_pair(trimmer_preplus, trimmer_preplus)), trimmed_src});
-          trimmer_src = trimmer_preplus;
+          trimmer_match_src = trimmer_preplus;
+          trimmer_preplus_next = -1;
         }
 
-        for(auto& trimmer_trans_it : trimmer.transitions.at(trimmer_src))
+        for(auto& trimmer_trans_it : trimmer.transitions.at(trimmer_match_src))
         {
           int trimmer_label = trimmer_trans_it.first,
               trimmer_trg   = trimmer_trans_it.second.first;
           int32_t trimmer_left = trimmer_a.decode(trimmer_label).first;
 
-          if(trimmer_preplus == trimmer_src) {
-            // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-            trimmer_preplus_next = trimmer_trg;
-          }
-
           if (trimmer_left != 0 && // we've already dealt with trimmer epsilons
               this_a.sameSymbol(this_right, trimmer_a, trimmer_left, true)) {
             next = std::make_pair(this_trg, std::make_pair(trimmer_trg, trimmer_preplus_next));
@@ -1232,7 +1213,7 @@ Transducer::trim(Transducer &trimmer,
                                this_label, // symbol-pair, using this alphabet
                                this_wt); //weight of transduction
           }
-        } // end loop arcs from trimmer_src
+        } // end loop arcs from trimmer_match_src
       } // end if JOIN else
     } // end loop arcs from this_src
   } // end while todo
-- 
2.43.0


From 5cc016e21a5b263a187dc52aa87dfcb5b496d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:33 +0000
Subject: [PATCH 036/111] fix: weights of the bilingual dictionary leaked into
 the trimmed analyser

---
 lttoolbox/transducer.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index a3d85ea..23877b3 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1105,7 +1105,6 @@ Transducer::trim(Transducer &trimmer,
     for(auto& trimmer_trans_it : trimmer.transitions[trimmer_src]) {
       int trimmer_label = trimmer_trans_it.first,
           trimmer_trg   = trimmer_trans_it.second.first;
-      double trimmer_wt = trimmer_trans_it.second.second;
       int32_t trimmer_left = trimmer_a.decode(trimmer_label).first;
 
       if(trimmer_left == 0)
@@ -1120,7 +1119,7 @@ Transducer::trim(Transducer &trimmer,
         trimmed.linkStates(trimmed_src,
                            trimmed_trg,
                            epsilon_tag,
-                           trimmer_wt);
+                           default_weight);
       }
     }
 
-- 
2.43.0


From b6da800d6fe94e19d80fc4e309b7acf6a6038a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:30 +0000
Subject: [PATCH 037/111] fix: lt-compose -a only matched at the end of a path

---
 lttoolbox/transducer.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 23877b3..91898f6 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1449,6 +1449,21 @@ Transducer::compose(Transducer const &g,
       }
     }
 
+    // If g_anywhere, the rest of f may follow after a match of g:
+    if(g_anywhere && g_src != g.initial && g.isFinal(g_src)) {
+      next = std::make_pair(f_src, g.initial);
+      if (seen.find(next) == seen.end()) {
+        todo.push_back(next);
+      }
+      if (states_f_g_gf.find(next) == states_f_g_gf.end()) {
+        states_f_g_gf.insert({next, gf.newState()});
+      }
+      gf.linkStates(gf_src,
+                    states_f_g_gf[next],
+                    epsilon_tag,
+                    g.finals.at(g_src));
+    }
+
     // Loop through arcs from f_src; when the right-side of our arc
     // matches left-side of an arc from g states, add that to todo:
     for(auto& trans_it : transitions[f_src])
-- 
2.43.0


From 9862b5f6be7f5558a4b2c013bb5f543cf17ef11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:51 +0000
Subject: [PATCH 038/111] fix: data race on the alphabet when lt-compose works
 in parallel

---
 lttoolbox/lt_compose.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/lt_compose.cc b/lttoolbox/lt_compose.cc
index 6ec365d..c704f90 100644
--- a/lttoolbox/lt_compose.cc
+++ b/lttoolbox/lt_compose.cc
@@ -21,6 +21,7 @@
 #include <iostream>
 #include <thread>
 #include <future>
+#include <mutex>
 
 void
 compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywhere, bool jobs)
@@ -47,6 +48,7 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
   union_g.minimize();
 
   std::vector<std::future<std::pair<UString, Transducer>>> compositions;
+  std::mutex alph_f_mutex; // composing adds symbol pairs to alph_f
   for (auto& it : trans_f) {
     if (it.second.numberOfTransitions() == 0) {
       std::cerr << "Warning: section " << it.first << " is empty! Skipping it..." << std::endl;
@@ -54,9 +56,11 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
     }
     if(jobs) {
       compositions.push_back(std::async(
-          [](Transducer &f, Transducer &g, Alphabet &alph_f, Alphabet &alph_g,
+          [&alph_f_mutex](Transducer &f, Transducer &g, Alphabet &alph_f, Alphabet &alph_g,
              bool f_inverted, bool g_anywhere, UString name) {
+            std::unique_lock<std::mutex> lock(alph_f_mutex);
             Transducer gf = f.compose(g, alph_f, alph_g, f_inverted, g_anywhere);
+            lock.unlock();
             if (gf.hasNoFinals()) {
               std::cerr << "Warning: section " << name
                         << " had no final state after composing! Skipping it..."
-- 
2.43.0


From f64408b0bdfd51823616b10584caec20737eb3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:51 +0000
Subject: [PATCH 039/111] fix: lt-append truncated alphabetic characters
 outside the BMP

---
 lttoolbox/lt_append.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lttoolbox/lt_append.cc b/lttoolbox/lt_append.cc
index a8358fb..7e7ca85 100644
--- a/lttoolbox/lt_append.cc
+++ b/lttoolbox/lt_append.cc
@@ -49,8 +49,6 @@ int main(int argc, char *argv[])
   for (auto& it : chars2) {
     chars1.insert(it);
   }
-  UString chars(chars1.begin(), chars1.end());
-
   for (auto& it : trans2) {
     if (trans1.find(it.first) != trans1.end()) {
       if (keep) {
@@ -63,7 +61,7 @@ int main(int argc, char *argv[])
     trans1[it.first] = it.second;
   }
 
-  writeTransducerSet(output, chars, alpha1, trans1);
+  writeTransducerSet(output, chars1, alpha1, trans1);
 
   fclose(input1);
   fclose(input2);
-- 
2.43.0


From af4db6b8f7195e39a8b9cd495c63f4d50aeb0e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:51 +0000
Subject: [PATCH 040/111] fix: lt-compose rejected its documented option -j

---
 lttoolbox/lt_compose.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/lt_compose.cc b/lttoolbox/lt_compose.cc
index c704f90..abc4b62 100644
--- a/lttoolbox/lt_compose.cc
+++ b/lttoolbox/lt_compose.cc
@@ -107,6 +107,7 @@ int main(int argc, char *argv[])
   CLI cli("compose transducer1 with transducer2", PACKAGE_VERSION);
   cli.add_bool_arg('i', "inverted", "run composition right-to-left on transducer1");
   cli.add_bool_arg('a', "anywhere", "don't require anchored matches, let transducer2 optionally compose at any sub-path");
+  cli.add_bool_arg('j', "jobs", "use one cpu core per section when composing");
   cli.add_file_arg("transducer1_bin_file", false);
   cli.add_file_arg("transducer2_bin_file");
   cli.add_file_arg("trimmed_bin_file");
-- 
2.43.0


From fccd5aacc19b19566eb69cf370e40fee78ac3f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:10 +0000
Subject: [PATCH 041/111] fix: alphabetic characters outside the BMP were
 truncated when compiling ATT files

---
 lttoolbox/att_compiler.cc | 3 +--
 lttoolbox/att_compiler.h  | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 4c415c1..71e39c3 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -531,8 +531,7 @@ AttCompiler::write(FILE *output)
   } else {
     temp["main@standard"_u] = extract_transducer(UNDECIDED);
   }
-  writeTransducerSet(output, UString(letters.begin(), letters.end()),
-                     alphabet, temp);
+  writeTransducerSet(output, letters, alphabet, temp);
 }
 
 void
diff --git a/lttoolbox/att_compiler.h b/lttoolbox/att_compiler.h
index 4d4af15..533ddb6 100644
--- a/lttoolbox/att_compiler.h
+++ b/lttoolbox/att_compiler.h
@@ -108,7 +108,7 @@ private:
 
   Alphabet alphabet;
   /** All non-multicharacter symbols. */
-  std::set<UChar> letters;
+  std::set<UChar32> letters;
 
   /** Used in AttNode. */
   struct Transduction
-- 
2.43.0


From 4de9d5871a562ebedd8ab5740ab76e7c85c384fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:10 +0000
Subject: [PATCH 042/111] fix: paths sharing a suffix with paths of the other
 section were lost when compiling ATT files

---
 lttoolbox/att_compiler.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 71e39c3..8c6273d 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -470,16 +470,19 @@ AttCompiler::classify_forwards()
     todo.pop();
     if(done.find(next) != done.end()) continue;
     AttNode* n1 = get_node(next);
+    done.insert(next);
     for(auto& t1 : n1->transductions) {
       AttNode* n2 = get_node(t1.to);
       for(auto& t2 : n2->transductions) {
-        t2.type |= t1.type;
+        if((t2.type | t1.type) != t2.type) {
+          t2.type |= t1.type;
+          done.erase(t1.to); // pass the new type on, even if we were there before
+        }
       }
       if(done.find(t1.to) == done.end()) {
         todo.push(t1.to);
       }
     }
-    done.insert(next);
   }
 }
 
-- 
2.43.0


From 0251cbc4964b4cf79e2392c038d79f7d9366b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:10 +0000
Subject: [PATCH 043/111] fix: a single ATT transducer had to start in state 0

---
 lttoolbox/att_compiler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 8c6273d..3684b5d 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -331,7 +331,8 @@ AttCompiler::parse(std::string const &file_name, bool read_rl)
   }
 
   if (!multiple_transducers) {
-    starting_state = 1;
+    AttNode* starting_node = get_node(starting_state);
+    starting_state = (starting_node->transductions.empty() ? 1 : starting_node->transductions[0].to);
     // if we aren't disjuncting multiple transducers
     // then we have an extra epsilon transduction at the beginning
     // so skip it
-- 
2.43.0


From 3bbaf78375f3be54fd3fa8fdc0a3056cc1cbf06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:28 +0000
Subject: [PATCH 044/111] fix: lt-print failed on transducers with an empty
 section

---
 lttoolbox/lt_print.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lttoolbox/lt_print.cc b/lttoolbox/lt_print.cc
index 6619530..e392e0f 100644
--- a/lttoolbox/lt_print.cc
+++ b/lttoolbox/lt_print.cc
@@ -55,6 +55,9 @@ int main(int argc, char *argv[])
   } else {
     bool first = true;
     for (auto& it : transducers) {
+      if (it.second.hasNoFinals()) {
+        continue; // e.g. an ATT file without any words
+      }
       if (!first) {
         u_fprintf(output, "--\n");
       }
-- 
2.43.0


From ca6eeccb4b494debec1306ea4543b8e8ad241d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:27 +0000
Subject: [PATCH 045/111] fix: lt-compose dropped tags that only the second
 transducer has

---
 lttoolbox/transducer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/transducer.h b/lttoolbox/transducer.h
index 98391fe..d552175 100644
--- a/lttoolbox/transducer.h
+++ b/lttoolbox/transducer.h
@@ -464,6 +464,7 @@ public:
     else {
       UString g_rightstr;
       g_a.getSymbol(g_rightstr, g_right);
+      f_a.includeSymbol(g_rightstr);
       gf_label = f_inverted ? f_a(f_a(g_rightstr), f_input)
                             : f_a(f_input,         f_a(g_rightstr));
     }
-- 
2.43.0


From aed3ed53b5386426efb6f15adc1fc3a3e161f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:14 +0000
Subject: [PATCH 046/111] fix: lt-restrict dropped entries restricted to a
 variant of the other side

---
 lttoolbox/lt_restrict.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/lt_restrict.cc b/lttoolbox/lt_restrict.cc
index 0aef3b4..25dde74 100644
--- a/lttoolbox/lt_restrict.cc
+++ b/lttoolbox/lt_restrict.cc
@@ -80,7 +80,12 @@ int main(int argc, char* argv[])
   for (int32_t i = 1; i <= alpha.size(); i++) {
     UString t;
     alpha.getSymbol(t, -i);
-    if (StringUtils::startswith(t, u"<r:") ||
+    // as when compiling directly, vl only restricts RL and vr only LR
+    bool other_side = (dir == "LR" && StringUtils::startswith(t, u"<vl:")) ||
+                      (dir == "RL" && StringUtils::startswith(t, u"<vr:"));
+    if (other_side) {
+      keep.insert(alpha(-i, -i));
+    } else if (StringUtils::startswith(t, u"<r:") ||
         (has_var && StringUtils::startswith(t, u"<v:")) ||
         StringUtils::startswith(t, u"<alt:") ||
         StringUtils::startswith(t, u"<vl:") ||
-- 
2.43.0


From f637b9f791c4a5b7efa91da3a91bba91042fd8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:25 +0000
Subject: [PATCH 047/111] fix: compiling with equivalent characters accepted
 words mixing two entries

---
 lttoolbox/compiler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 3632f46..5314a54 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -273,7 +273,10 @@ Compiler::matchTransduction(std::vector<int> const &pi,
         weight_value = default_weight;
       }
 
-      int new_state = t.insertSingleTransduction(tag, state, weight_value);
+      // arcs of equivalent characters lead to the same state, so that
+      // state must not be shared with other entries
+      int new_state = acx_map.empty() ? t.insertSingleTransduction(tag, state, weight_value)
+                                      : t.insertNewSingleTransduction(tag, state, weight_value);
 
       if (is_separable) {
         // loop-back symbols for <ANY_TAG> and <ANY_CHAR>
-- 
2.43.0


From ff1612fc65e0fdf7f5fc3dd211255a3dd848853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:11 +0000
Subject: [PATCH 048/111] fix: lt-paradigm ignored unknown tags and characters
 outside the BMP in patterns

---
 lttoolbox/lt_paradigm.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index e0d5858..ec7c23a 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -83,7 +83,12 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
   Transducer other;
   int state = other.getInitial();
   for (auto sym : symbol_iter(pattern)) {
-    int32_t it = (sym.size() == 1 ? sym[0] : alpha(sym));
+    int32_t it = 0;
+    if (sym.size() > 1 && sym[0] == '<') {
+      if (alpha.isSymbolDefined(sym)) it = alpha(sym);
+    } else {
+      U16_GET(sym.data(), 0, 0, sym.size(), it);
+    }
     if (it == any_char) {
       state = other.insertNewSingleTransduction(0, state);
       for (auto& sym : letters) {
@@ -110,6 +115,7 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
       }
     } else if (it == 0 && StringUtils::startswith(sym, "<|"_u)) {
       auto or_tags = split_tag(sym, alpha, 1, '|');
+      if (or_tags.empty()) return; // no such tag in the transducer
       auto old_state = state;
       for (auto& t : or_tags) {
         if (old_state == state) {
@@ -118,6 +124,8 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
           other.linkStates(old_state, state, alpha(t, t));
         }
       }
+    } else if (it == 0) {
+      return; // no such tag in the transducer
     } else {
       state = other.insertNewSingleTransduction(alpha(it, it), state);
     }
-- 
2.43.0


From 1d4ecef750e8019f8bc9464d27380460f144a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:58 +0000
Subject: [PATCH 049/111] fix: lt-merge read standard input when given only an
 input file

---
 lttoolbox/lt_merge.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/lt_merge.cc b/lttoolbox/lt_merge.cc
index d3939f7..d176f20 100644
--- a/lttoolbox/lt_merge.cc
+++ b/lttoolbox/lt_merge.cc
@@ -35,7 +35,7 @@ int main(int argc, char *argv[])
   auto strs = cli.get_strs();
   bool unmerge = cli.get_bools()["unmerge"];
   InputFile input;
-  if (!cli.get_files()[1].empty()) {
+  if (!cli.get_files()[0].empty()) {
     input.open_or_exit(cli.get_files()[0].c_str());
   }
   UFILE* output = openOutTextFile(cli.get_files()[1]);
-- 
2.43.0


From 513b03565ad522a38f668d0c6c5448c053bd1bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:12 +0000
Subject: [PATCH 050/111] fix: lt-merge did not escape the blanks that lt-merge
 -u unescapes

---
 lttoolbox/fst_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 5c5a66b..53693cd 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2070,7 +2070,7 @@ FSTProcessor::quoteMerge(InputFile& input, UFILE *output)
     }
     if(merging) {
       if(surface.size() > 0) {
-        surface += reader.blank;
+        appendEscaped(surface, reader.blank);
         appendEscaped(surface, reader.wblank);
         if(!reader.wblank.empty()) { appendEscaped(surface, "^$"_u); } // otherwise cg-proc will Error wordblank not prior to token
       }
-- 
2.43.0


From 6b6a6edb735504586d467c42e6dde41ef9798ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:12 +0000
Subject: [PATCH 051/111] fix: lt-merge lost the text from an unfinished merge
 at the end of the input

---
 lttoolbox/fst_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 53693cd..1c42ae9 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2104,7 +2104,7 @@ FSTProcessor::quoteMerge(InputFile& input, UFILE *output)
         u_fputc('$', output);
       }
     }
-    if(end_merging || reader.at_null) {
+    if(end_merging || reader.at_null || reader.at_eof) {
       if (merging) {
         u_fputc('^', output);
         write(surface, output);
-- 
2.43.0


From 903ce97fdbb94b52e0c5a9d722c6db08d69a3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:12 +0000
Subject: [PATCH 052/111] fix: lt-merge dropped the first character of surface
 forms that start with *, #, = or %

---
 lttoolbox/fst_processor.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 1c42ae9..3ebf763 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2080,7 +2080,10 @@ FSTProcessor::quoteMerge(InputFile& input, UFILE *output)
         write(reader.wblank, output);
       }
       if(reader.readings.size() > 0) {
-        // Drop possible unknown marks.
+        // Drop possible unknown marks, but keep a surface form that starts like one.
+        if(reader.readings.size() > 1 && reader.readings[0].mark != '\0') {
+          surface += reader.readings[0].mark;
+        }
         // Double-escape the form since we'll unescape during lt-unmerge:
         appendEscaped(surface, reader.readings[0].content);
       }
-- 
2.43.0


From ec6eaed7f4c5f3d691798a12fe64510919bc4f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:30 +0000
Subject: [PATCH 053/111] fix: the union of transducers continued paths that
 loop back to the initial state

---
 lttoolbox/transducer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 91898f6..3055ab2 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -851,6 +851,10 @@ Transducer::unionWith(Alphabet &my_a,
                       Transducer &t,
                       int const epsilon_tag)
 {
+  // the paths of t must not continue paths which loop back to our initial state
+  int start = newState();
+  linkStates(start, initial, epsilon_tag, default_weight);
+  initial = start;
   finals.insert({insertTransducer(initial, t, epsilon_tag), default_weight});
 }
 
-- 
2.43.0


From 1bd9e5d2b68088a6b49ede9c9c0a41526931aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:30 +0000
Subject: [PATCH 054/111] fix: deserialising strings kept only one byte of each
 character

---
 lttoolbox/deserialiser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/deserialiser.h b/lttoolbox/deserialiser.h
index 9062930..0d0a899 100644
--- a/lttoolbox/deserialiser.h
+++ b/lttoolbox/deserialiser.h
@@ -85,7 +85,7 @@ public:
 
 template <> class Deserialiser<UChar> {
 public:
-  inline static char deserialise(std::istream &Stream_);
+  inline static UChar deserialise(std::istream &Stream_);
 };
 
 template<> class Deserialiser<double> {
@@ -174,7 +174,7 @@ char Deserialiser<char>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint8_t>(Stream_);
 }
 
-char Deserialiser<UChar>::deserialise(std::istream &Stream_) {
+UChar Deserialiser<UChar>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint16_t>(Stream_);
 }
 
-- 
2.43.0


From db6c5eeec05ca141b601d28f9d7a30245a78f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:30 +0000
Subject: [PATCH 055/111] fix: deserialising an alphabet lost pairs or read
 past its symbols

---
 lttoolbox/alphabet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index a64e5a5..c05019c 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -206,7 +206,7 @@ Alphabet::deserialise(std::istream &serialised)
     slexic[slexicinv[i]] = -i - 1; // ToDo: This does not turn the result negative due to unsigned semantics
   }
   spairinv = Deserialiser<std::vector<std::pair<int32_t, int32_t> > >::deserialise(serialised);
-  for (size_t i = 0; i < slexicinv.size(); i++) {
+  for (size_t i = 0; i < spairinv.size(); i++) {
     spair[spairinv[i]] = i;
   }
 }
-- 
2.43.0


From 9b3212b1cf84a65212abee3b3a20545ba836200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:57 +0000
Subject: [PATCH 056/111] fix: undefined conversion when writing infinite
 weights

---
 lttoolbox/compression.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/compression.cc b/lttoolbox/compression.cc
index 79970e6..558551e 100644
--- a/lttoolbox/compression.cc
+++ b/lttoolbox/compression.cc
@@ -286,7 +286,7 @@ Compression::long_multibyte_write(const double& value, FILE *output)
 {
   int exp = 0;
 
-  unsigned int mantissa = static_cast<unsigned int>(static_cast<int>(0x40000000 * frexp(value, &exp)));
+  unsigned int mantissa = static_cast<unsigned int>(static_cast<int>(0x40000000 * frexp(std::isinf(value) ? 0 : value, &exp)));
   unsigned int exponent = static_cast<unsigned int>(static_cast<int>(exp));
 
   if (std::isinf(value)) {
@@ -333,7 +333,7 @@ Compression::long_multibyte_write(const double& value, std::ostream &output)
 {
   int exp = 0;
 
-  unsigned int mantissa = static_cast<unsigned int>(static_cast<int>(0x40000000 * frexp(value, &exp)));
+  unsigned int mantissa = static_cast<unsigned int>(static_cast<int>(0x40000000 * frexp(std::isinf(value) ? 0 : value, &exp)));
   unsigned int exponent = static_cast<unsigned int>(static_cast<int>(exp));
 
   if (std::isinf(value)) {
-- 
2.43.0


From 2674143d8d87b71f82fe31bcb5d86d653d9c9676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:54 +0000
Subject: [PATCH 057/111] fix: state numbers out of range in an ATT file
 overflowed

---
 lttoolbox/att_compiler.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 3684b5d..d6c350c 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -149,14 +149,17 @@ AttCompiler::add_transition(int from, int to,
  * - DGS 2025-08-29
  */
 
-int fast_stoi(UString s) {
-  int ret = 0;
+int fast_stoi(UString s, int offset) {
+  int64_t ret = 0;
   for (size_t i = 0; i < s.size(); i++) {
     if (s[i] < '0' || s[i] > '9') throw std::invalid_argument("bad int");
     ret *= 10;
     ret += (s[i] - '0');
+    if (ret + offset >= std::numeric_limits<int>::max()) {
+      throw std::invalid_argument("int out of range");
+    }
   }
-  return ret;
+  return ret + offset;
 }
 
 double fast_stod(UString s) {
@@ -255,7 +258,7 @@ AttCompiler::parse(std::string const &file_name, bool read_rl)
     }
 
     try {
-      from = fast_stoi(tokens[0]) + state_id_offset;
+      from = fast_stoi(tokens[0], state_id_offset);
     } catch (const std::invalid_argument& e) {
       std::cerr << "Error: invalid source state in file '" << file_name << "' on line " << line_number << "." << std::endl;
       exit(EXIT_FAILURE);
@@ -295,7 +298,7 @@ AttCompiler::parse(std::string const &file_name, bool read_rl)
     else
     {
       try {
-        to = fast_stoi(tokens[1]) + state_id_offset;
+        to = fast_stoi(tokens[1], state_id_offset);
       } catch (const std::invalid_argument& e) {
 	std::cerr << "Error: invalid target state in file '" << file_name << "' on line " << line_number << "." << std::endl;
 	exit(EXIT_FAILURE);
-- 
2.43.0


From 8fdd5a2b43aee3d9c79289fc51b77bc179730a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:54 +0000
Subject: [PATCH 058/111] fix: lt-expand and lt-tmxcomp hung on truncated or
 malformed XML

---
 lttoolbox/expander.cc     | 28 +++++++++++++++++++---------
 lttoolbox/tmx_compiler.cc | 20 +++++++++++++++-----
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 778b9ad..44bb86a 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -25,6 +25,16 @@
 #include <libxml/encoding.h>
 
 
+// go to the next node; the document can't end where this is called
+static void
+readNode(xmlTextReaderPtr reader)
+{
+  if(xmlTextReaderRead(reader) != 1)
+  {
+    XMLParseUtil::error_and_die(reader, "Parse error.");
+  }
+}
+
 Expander::Expander()
 {
 }
@@ -169,7 +179,7 @@ Expander::skipBlanks(UString &name)
       std::cerr << "): Invalid construction." << std::endl;
       exit(EXIT_FAILURE);
     }
-    xmlTextReaderRead(reader);
+    readNode(reader);
     name = XMLParseUtil::readName(reader);
   }
 }
@@ -177,7 +187,7 @@ Expander::skipBlanks(UString &name)
 void
 Expander::skip(UString &name, UStringView elem)
 {
-  xmlTextReaderRead(reader);
+  readNode(reader);
   name = XMLParseUtil::readName(reader);
 
   if(name == Compiler::COMPILER_TEXT_NODE)
@@ -188,7 +198,7 @@ Expander::skip(UString &name, UStringView elem)
       std::cerr << "): Invalid construction." << std::endl;
       exit(EXIT_FAILURE);
     }
-    xmlTextReaderRead(reader);
+    readNode(reader);
     name = XMLParseUtil::readName(reader);
   }
 
@@ -211,7 +221,7 @@ Expander::procIdentity()
 
     while(true)
     {
-      xmlTextReaderRead(reader);
+      readNode(reader);
       name = XMLParseUtil::readName(reader);
       if(name == Compiler::COMPILER_IDENTITY_ELEM)
       {
@@ -236,7 +246,7 @@ Expander::procIdentityGroup()
 
     while(true)
     {
-      xmlTextReaderRead(reader);
+      readNode(reader);
       name = XMLParseUtil::readName(reader);
       if(name == Compiler::COMPILER_IDENTITYGROUP_ELEM)
       {
@@ -265,7 +275,7 @@ Expander::procTransduction()
     name.clear();
     while(true)
     {
-      xmlTextReaderRead(reader);
+      readNode(reader);
       name = XMLParseUtil::readName(reader);
       if(name == Compiler::COMPILER_LEFT_ELEM)
       {
@@ -282,7 +292,7 @@ Expander::procTransduction()
     name.clear();
     while(true)
     {
-      xmlTextReaderRead(reader);
+      readNode(reader);
       name = XMLParseUtil::readName(reader);
       if(name == Compiler::COMPILER_RIGHT_ELEM)
       {
@@ -556,7 +566,7 @@ Expander::procNode(UFILE *output)
 UString
 Expander::procRegexp()
 {
-  xmlTextReaderRead(reader);
+  readNode(reader);
   UString val = XMLParseUtil::readValue(reader);
   UString escaped = "^$/<>{}*@#+~:"_u;
   UString ret;
@@ -574,7 +584,7 @@ Expander::procRegexp()
     }
     ret += c;
   }
-  xmlTextReaderRead(reader);
+  readNode(reader);
   return ret;
 }
 
diff --git a/lttoolbox/tmx_compiler.cc b/lttoolbox/tmx_compiler.cc
index 8ea56cc..e42a5f0 100644
--- a/lttoolbox/tmx_compiler.cc
+++ b/lttoolbox/tmx_compiler.cc
@@ -25,6 +25,16 @@
 #include <libxml/encoding.h>
 
 
+// go to the next node; the document can't end where this is called
+static void
+readNode(xmlTextReaderPtr reader)
+{
+  if(xmlTextReaderRead(reader) != 1)
+  {
+    XMLParseUtil::error_and_die(reader, "Parse error.");
+  }
+}
+
 TMXCompiler::TMXCompiler() :
 reader(0),
 default_weight(0.0000)
@@ -111,7 +121,7 @@ TMXCompiler::skipBlanks(UString &name)
       }
     }
 
-    xmlTextReaderRead(reader);
+    readNode(reader);
     name = XMLParseUtil::readName(reader);
   }
 }
@@ -119,7 +129,7 @@ TMXCompiler::skipBlanks(UString &name)
 void
 TMXCompiler::skip(UString &name, UStringView elem)
 {
-  xmlTextReaderRead(reader);
+  readNode(reader);
   name = XMLParseUtil::readName(reader);
 
   while(name == TMX_COMPILER_TEXT_NODE || name == TMX_COMPILER_COMMENT_NODE)
@@ -133,7 +143,7 @@ TMXCompiler::skip(UString &name, UStringView elem)
         exit(EXIT_FAILURE);
       }
     }
-    xmlTextReaderRead(reader);
+    readNode(reader);
     name = XMLParseUtil::readName(reader);
   }
 
@@ -339,7 +349,7 @@ TMXCompiler::procTU()
 
       while(name != TMX_COMPILER_TUV_ELEM || type != XML_READER_TYPE_END_ELEMENT)
       {
-        xmlTextReaderRead(reader);
+        readNode(reader);
         name = XMLParseUtil::readName(reader);
         type = xmlTextReaderNodeType(reader);
 
@@ -356,7 +366,7 @@ TMXCompiler::procTU()
         }
       }
     }
-    xmlTextReaderRead(reader);
+    readNode(reader);
     name = XMLParseUtil::readName(reader);
     type = xmlTextReaderNodeType(reader);
   }
-- 
2.43.0


From 143ddf49724e80131cb47d845eead387f2a0188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:04 +0000
Subject: [PATCH 059/111] fix: an escaped space took the next blank from the
 queue

---
 lttoolbox/fst_processor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 3ebf763..183d4a9 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -236,6 +236,9 @@ FSTProcessor::readAnalysis(InputFile& input)
         if(val == U_EOF) {
           val = 0;
         }
+        if(val == ' ') {
+          blankqueue.push(" "_u);
+        }
         input_buffer.add(static_cast<int32_t>(val));
         return val;
 
-- 
2.43.0


From c02d6ee8c63ee7cb6d1858cf1af36a22bad7f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:04 +0000
Subject: [PATCH 060/111] fix: an escaped space in transliteration and
 postgeneration was not a blank

---
 lttoolbox/fst_processor.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 183d4a9..4201193 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -346,6 +346,9 @@ FSTProcessor::readTransliterationBlank(InputFile& input)
         break;
       }
       blank += input.readBlock('[', ']');
+    } else if (c == '\\' && input.peek() == ' ') {
+      blank += c;
+      blank += input.get();
     } else {
       input.unget(c);
       break;
@@ -406,7 +409,8 @@ FSTProcessor::readTransliterationWord(InputFile& input)
   } else {
     while (!input.eof()) {
       UChar32 c = input.get();
-      if (u_isspace(c) || c == '[' || c == '\0' || c == U_EOF) {
+      if (u_isspace(c) || c == '[' || c == '\0' || c == U_EOF ||
+          (c == '\\' && input.peek() == ' ')) {
         input.unget(c);
         break;
       } else if (c == '\\' && input.peek() != '\0' && input.peek() != U_EOF) {
-- 
2.43.0


From 9da686c2d66e7363096b50654ec9f087845d6ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:04 +0000
Subject: [PATCH 061/111] fix: a tag in the text corrupted the buffer when '<'
 is in the alphabet

---
 lttoolbox/fst_processor.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 4201193..58d173e 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -861,6 +861,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
   UString lf_spcmp;      // space compound analysis
   bool seen_cpL = false; // have we seen a <compound-only-L> tag so far
   size_t last_start = input_buffer.getPos(); // position in input_buffer when sf was last cleared
+  size_t first_tag = UString::npos; // position in sf of the first tag read, which is never alphabetic
   size_t last = 0;       // position in input_buffer after last analysis
   size_t last_size = 0;  // size of sf at last analysis
   std::map<int, std::set<int> >::iterator rcx_map_ptr;
@@ -973,6 +974,10 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
     {
       if(val != 0)
       {
+        if(alphabet.isTag(val) && first_tag == UString::npos)
+        {
+          first_tag = sf.size();
+        }
         alphabet.getSymbol(sf, val);
       }
     }
@@ -1045,7 +1050,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         }
         while((val = readAnalysis(input)) && isAlphabetic(val));
 
-        auto limit = firstNotAlpha(sf);
+        auto limit = firstNotAlpha(UStringView(sf).substr(0, first_tag));
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(last_start);
@@ -1068,7 +1073,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       }
       else if(lf.empty())
       {
-        auto limit = firstNotAlpha(sf);
+        auto limit = firstNotAlpha(UStringView(sf).substr(0, first_tag));
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(last_start);
@@ -1100,6 +1105,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       lf.clear();
       sf.clear();
       last_start = input_buffer.getPos();
+      first_tag = UString::npos;
       last_incond = false;
       last_postblank = false;
       last_preblank = false;
-- 
2.43.0


From 167aec8041f1781cf914d49b3ce3762d23d62d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:04 +0000
Subject: [PATCH 062/111] fix: SAO mode looped or repeated text after a failed
 match

---
 lttoolbox/fst_processor.cc | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 58d173e..25ae053 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2247,6 +2247,10 @@ FSTProcessor::readSAO(InputFile& input)
       {
         while(!StringUtils::endswith(str, u"]]>"))
         {
+          if(input.eof() || input.peek() == '\0')
+          {
+            streamError();
+          }
           str.append(input.readBlock('<', '>').substr(1));
         }
         blankqueue.push(str);
@@ -2300,6 +2304,7 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
   UString lf;
   UString sf;
   int last = 0;
+  size_t last_start = input_buffer.getPos(); // position in input_buffer when sf was last cleared
 
   escaped_chars.clear();
   escaped_chars.insert('\\');
@@ -2402,16 +2407,30 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
         while((val = readSAO(input)) && isAlphabetic(val));
 
         auto limit = firstNotAlpha(sf);
-        unsigned int size = sf.size(); // TODO: change these to character counts
-        input_buffer.back(1+(size-limit.i_utf16));
-        u_fprintf(output, "<d>%S</d>", sf.c_str());
+        if(limit.i_codepoint == 0)
+        {
+          input_buffer.setPos(last_start);
+          printChar(input_buffer.next(), output);
+        }
+        else
+        {
+          input_buffer.setPos(last_start + limit.i_codepoint);
+          u_fprintf(output, "<d>%S</d>", sf.substr(0, limit.i_utf16).c_str());
+        }
       }
       else if(lf.empty())
       {
         auto limit = firstNotAlpha(sf);
-        unsigned int size = sf.size(); // TODO: change these to character counts
-        input_buffer.back(1+(size-limit.i_utf16));
-        u_fprintf(output, "<d>%S</d>", sf.c_str());
+        if(limit.i_codepoint == 0)
+        {
+          input_buffer.setPos(last_start);
+          printChar(input_buffer.next(), output);
+        }
+        else
+        {
+          input_buffer.setPos(last_start + limit.i_codepoint);
+          u_fprintf(output, "<d>%S</d>", sf.substr(0, limit.i_utf16).c_str());
+        }
       }
       else
       {
@@ -2423,6 +2442,7 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
       current_state = initial_state;
       lf.clear();
       sf.clear();
+      last_start = input_buffer.getPos();
       last_incond = false;
       last_postblank = false;
     }
-- 
2.43.0


From ecb1b92a75f76b29366d11e793c8bdef30f4dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:15 +0000
Subject: [PATCH 063/111] fix: lt-comp -V read the first character of empty
 strings

---
 lttoolbox/compiler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 5314a54..b5b1295 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -475,7 +475,7 @@ Compiler::procIdentity(double const entry_weight, bool ig)
     }
   }
 
-  if(verbose && first_element && (both_sides.front() == (int)' '))
+  if(verbose && first_element && !both_sides.empty() && both_sides.front() == (int)' ')
   {
     std::cerr << "Error (" << xmlTextReaderGetParserLineNumber(reader);
     std::cerr << "): Entry begins with space." << std::endl;
@@ -513,7 +513,7 @@ Compiler::procTransduction(double const entry_weight)
     }
   }
 
-  if(verbose && first_element && (lhs.front() == (int)' '))
+  if(verbose && first_element && !lhs.empty() && lhs.front() == (int)' ')
   {
     std::cerr << "Error (" << xmlTextReaderGetParserLineNumber(reader);
     std::cerr << "): Entry begins with space." << std::endl;
-- 
2.43.0


From e0de4151720b83a7af4731361918f24d2973a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:15 +0000
Subject: [PATCH 064/111] fix: many word blanks without a word overflowed the
 stack

---
 lttoolbox/stream_reader.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/stream_reader.cc b/lttoolbox/stream_reader.cc
index 86e1a20..7dd232f 100644
--- a/lttoolbox/stream_reader.cc
+++ b/lttoolbox/stream_reader.cc
@@ -35,14 +35,13 @@ void StreamReader::next() {
 
   UChar32 c = in->get();
 
-  if (c == '[') {
+  while (c == '[') {
     in->get();
     wblank = in->finishWBlank();
     if (in->peek() != '^') {
-      UString temp = blank + wblank;
-      next();
-      blank = temp + blank;
-      return;
+      blank += wblank;
+      wblank.clear();
+      blank += in->readBlank(false);
     }
     c = in->get();
   }
-- 
2.43.0


From 5cd995492c577afbd2b1d8868313dc9e4ce4666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:29 +0000
Subject: [PATCH 065/111] fix: bilingual lookup through the library never found
 a word or cut it short

---
 lttoolbox/fst_processor.cc | 107 +++++++++++--------------------------
 1 file changed, 31 insertions(+), 76 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 25ae053..85d59dc 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1661,26 +1661,40 @@ bool
 FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UString& queue)
 {
   State current_state = initial_state;
-  bool firstupper = u_isupper(word[0]);
-  bool uppercase = firstupper && u_isupper(word[1]);
+  std::vector<int32_t> symbols;
   for (auto symbol : symbol_iter(word)) {
-    int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
+    int32_t val;
+    if (symbol.size() > 1 && symbol[0] == '<') {
+      val = alphabet(symbol);
+    } else {
+      U16_GET(symbol.data(), 0, 0, symbol.size(), val);
+    }
+    symbols.push_back(val);
+  }
+  bool seentags = false;  // have we seen any tags at all in the analysis?
+  bool firstupper = !symbols.empty() && u_isupper(symbols[0]);
+  bool uppercase = firstupper && symbols.size() > 1 && u_isupper(symbols[1]);
+  size_t i = 0;
+  for (auto symbol : symbol_iter(word)) {
+    int32_t val = symbols[i++];
+    if (val <= 0) seentags = true;
     if (current_state.size() != 0) {
-      current_state.step(val, beCaseSensitive(current_state));
+      current_state.step_case(val, beCaseSensitive(current_state));
     }
     if (current_state.isFinal(all_finals)) {
+      queue.clear();
       current_state.filterFinalsArray(result,
                                       all_finals, alphabet,
                                       escaped_chars,
                                       displayWeightsMode, maxAnalyses, maxWeightClasses,
                                       uppercase, firstupper, 0);
-    }
-    if (current_state.size() == 0) {
-      if (!result.empty()) queue.append(symbol);
-      else return false;
+    } else {
+      if (val > 0 && isEscaped(val)) queue += '\\';
+      queue.append(symbol);
     }
   }
-  return !result.empty();
+  // if there are no tags, we only return complete matches
+  return !result.empty() && (seentags || queue.empty());
 }
 
 UString
@@ -1709,7 +1723,7 @@ FSTProcessor::biltransfull(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  auto word = input_word.substr(start_point, end_point-start_point);
+  auto word = input_word.substr(start_point, end_point-start_point+1);
   bool exists = step_biltrans(word, result, queue);
   if (!exists) {
     if (with_delim) return "^@"_u + US(input_word.substr(1));
@@ -1754,7 +1768,7 @@ FSTProcessor::biltrans(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  UStringView word = input_word.substr(start_point, end_point-start_point);
+  UStringView word = input_word.substr(start_point, end_point-start_point+1);
   bool exists = step_biltrans(word, result, queue);
   if (!exists) {
     if (with_delim) return "^@"_u + US(input_word.substr(1));
@@ -1928,14 +1942,11 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
 std::pair<UString, int>
 FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
 {
-  State current_state = initial_state;
   std::vector<UString> result;
-  std::vector<UString> temp;
   unsigned int start_point = 1;
   unsigned int end_point = input_word.size()-2;
   UString queue;
   bool mark = false;
-  bool seentags = false;  // have we seen any tags at all in the analysis?
 
   if(with_delim == false)
   {
@@ -1954,69 +1965,13 @@ FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  bool firstupper = u_isupper(input_word[start_point]);
-  bool uppercase = firstupper && u_isupper(input_word[start_point+1]);
-
-  UStringView word = input_word.substr(start_point, end_point-start_point);
-  for (auto symbol : symbol_iter(word)) {
-    int32_t val;
-    if (symbol.size() == 1) {
-      val = symbol[0];
-    } else {
-      val = alphabet(symbol);
-      seentags = true;
-    }
-    if(current_state.size() != 0)
-    {
-      current_state.step_case(val, beCaseSensitive(current_state));
-    }
-    if(current_state.isFinal(all_finals))
-    {
-      current_state.filterFinalsArray(result, all_finals, alphabet,
-                                      escaped_chars,
-                                      displayWeightsMode, maxAnalyses, maxWeightClasses,
-                                      uppercase, firstupper, 0);
-    }
-
-    if(current_state.size() == 0)
-    {
-      if(!symbol.empty() && !result.empty())
-      {
-        queue.append(symbol);
-      }
-      else
-      {
-        // word is not present
-        if(with_delim)
-        {
-          return {"^@"_u + US(input_word.substr(1)), 0};
-        }
-        else
-        {
-          return {"@"_u + US(input_word), 0};
-        }
-      }
-    }
-  }
-
-  if (!seentags
-      && current_state.filterFinals(all_finals, alphabet, escaped_chars,
-                                    displayWeightsMode, maxAnalyses, maxWeightClasses,
-                                    uppercase, firstupper, 0).empty())
-  {
-    // word is not present
-    if(with_delim)
-    {
-      return {"^@"_u + US(input_word.substr(1)), 0};
-    }
-    else
-    {
-      return {"@"_u + US(input_word), 0};
-    }
+  UStringView word = input_word.substr(start_point, end_point-start_point+1);
+  bool exists = step_biltrans(word, result, queue);
+  if (!exists) {
+    if (with_delim) return {"^@"_u + US(input_word.substr(1)), 0};
+    else return {"@"_u + US(input_word), 0};
   }
 
-
-
   // attach unmatched queue automatically
   return {compose(result, queue, with_delim, mark), queue.size()};
 }
@@ -2047,7 +2002,7 @@ FSTProcessor::biltransWithoutQueue(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  auto word = input_word.substr(start_point, end_point-start_point);
+  auto word = input_word.substr(start_point, end_point-start_point+1);
   UString queue;
   bool exists = step_biltrans(word, result, queue);
   if (!exists || !queue.empty()) {
-- 
2.43.0


From d3c1da75406358591e8f1b48d725326813ce37ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:29 +0000
Subject: [PATCH 066/111] fix: FSTProcessor::lookup() never found a word unless
 case sensitive

---
 lttoolbox/fst_processor.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 85d59dc..26ca320 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2534,12 +2534,21 @@ bool
 FSTProcessor::lookup(UStringView word, std::vector<UString>& result)
 {
   State current_state = initial_state;
-  bool firstupper = u_isupper(word[0]);
-  bool uppercase = firstupper && u_isupper(word[1]);
+  bool firstupper = false;
+  bool uppercase = false;
+  size_t i = 0;
   for (auto symbol : symbol_iter(word)) {
-    int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
+    int32_t val;
+    if (symbol.size() > 1 && symbol[0] == '<') {
+      val = alphabet(symbol);
+    } else {
+      U16_GET(symbol.data(), 0, 0, symbol.size(), val);
+    }
+    if (i == 0) firstupper = u_isupper(val);
+    else if (i == 1) uppercase = firstupper && u_isupper(val);
+    i++;
     if (current_state.size() != 0) {
-      current_state.step(val, beCaseSensitive(current_state));
+      current_state.step_case(val, beCaseSensitive(current_state));
     }
   }
   current_state.filterFinalsArray(result,
-- 
2.43.0


From 436c30f39e7b8a2886c3f8fa0bb6777c7fa081ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:52 +0000
Subject: [PATCH 067/111] fix: a space in a multiword was duplicated when a
 formatted blank came before it

---
 lttoolbox/fst_processor.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 26ca320..47988cd 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -596,7 +596,9 @@ FSTProcessor::printWordPopBlank(UStringView sf, UStringView lf, UFILE *output)
   u_fprintf(output, "%.*S$", lf.size(), lf.data());
   while (postpop-- && blankqueue.size() > 0)
   {
-    write(blankqueue.front(), output);
+    if (blankqueue.front() != " "_u) { // otherwise it's in the word already
+      write(blankqueue.front(), output);
+    }
     blankqueue.pop();
   }
 }
-- 
2.43.0


From f08fc8a7f0f0e248192dfe4d7755dcb3ccb2c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:08 +0000
Subject: [PATCH 068/111] fix: splitting a string into symbols read past its
 end

---
 lttoolbox/symbol_iter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/symbol_iter.cc b/lttoolbox/symbol_iter.cc
index 4ebc85b..657bedc 100644
--- a/lttoolbox/symbol_iter.cc
+++ b/lttoolbox/symbol_iter.cc
@@ -19,9 +19,10 @@ symbol_iter::iterator& symbol_iter::iterator::operator++()
 {
   if (sloc < str.size()) {
     sloc = eloc;
+    if (sloc == str.size()) return *this;
     UChar32 c;
     U16_NEXT(str.data(), eloc, str.size(), c);
-    if (c == '\\') {
+    if (c == '\\' && eloc < str.size()) {
       sloc++;
       U16_NEXT(str.data(), eloc, str.size(), c);
     } else if (c == '<') {
-- 
2.43.0


From d1f55a31c384b1d14818854b204ece9784748f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:59 +0000
Subject: [PATCH 069/111] fix: lt-trim kept analyses with tags before the rest
 of a bilingual entry

---
 lttoolbox/transducer.cc | 22 +++++++++++++++++-----
 lttoolbox/transducer.h  |  4 ++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 3055ab2..337b0e9 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -863,14 +863,26 @@ Transducer::appendDotStar(std::set<int> const &loopback_symbols, int const epsil
 {
   Transducer prefix_transducer(*this);
 
+  if(prefix_transducer.finals.empty())
+  {
+    return prefix_transducer;
+  }
+
+  // loop in a state of its own, or what follows a final state in the
+  // original transducer would be accepted after the loopback symbols
+  int const loop = prefix_transducer.newState();
   for(auto& prefix_it : prefix_transducer.finals)
   {
-    for(auto& loopback_it : loopback_symbols)
+    prefix_transducer.linkStates(prefix_it.first, loop, epsilon_tag, prefix_it.second);
+  }
+  prefix_transducer.finals.clear();
+  prefix_transducer.finals.insert({loop, default_weight});
+
+  for(auto& loopback_it : loopback_symbols)
+  {
+    if(loopback_it != epsilon_tag) // TODO: Necessary? Minimization should remove epsilon loopbacks anyway
     {
-      if(loopback_it != epsilon_tag) // TODO: Necessary? Minimization should remove epsilon loopbacks anyway
-      {
-        prefix_transducer.linkStates(prefix_it.first, prefix_it.first, loopback_it, prefix_it.second);
-      }
+      prefix_transducer.linkStates(loop, loop, loopback_it, default_weight);
     }
   }
 
diff --git a/lttoolbox/transducer.h b/lttoolbox/transducer.h
index d552175..c7aa6dc 100644
--- a/lttoolbox/transducer.h
+++ b/lttoolbox/transducer.h
@@ -352,8 +352,8 @@ public:
                  int epsilon_tag = 0);
 
   /**
-   * Converts this class into a "prefix transducer", ie. for any final
-   * state, appends a transition to itself for all of the loopback
+   * Converts this class into a "prefix transducer", ie. after any final
+   * state, appends a loop over all of the loopback
    * symbols (typically all tags). So if the original transducer
    * accepts "foo<tag1>" and loopback_symbols includes <tag2>, the
    * prefix transducer will accept "foo<tag1><tag2>" as well as
-- 
2.43.0


From 6344a19a4e7e644f536bc3abbb7d11fef67f0133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:02 +0000
Subject: [PATCH 070/111] fix: decompounding and lowering failed for characters
 outside the BMP

---
 lttoolbox/fst_processor.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 47988cd..1944669 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -738,22 +738,27 @@ FSTProcessor::compoundAnalysis(UString input_word)
 
   State current_state = initial_state;
 
-  for(unsigned int i=0; i<input_word.size(); i++)
+  std::vector<int32_t> symbols;
+  ustring_to_vec32(input_word, symbols);
+
+  for(unsigned int i=0; i<symbols.size(); i++)
   {
-    UChar val=input_word[i];
+    UChar32 val=symbols[i];
 
     current_state.step_case(val, beCaseSensitive(current_state));
 
     if(current_state.size() > MAX_COMBINATIONS)
     {
       std::cerr << "Warning: compoundAnalysis's MAX_COMBINATIONS exceeded for '" << input_word << "'" << std::endl;
-      std::cerr << "         gave up at char " << i << " '" << val << "'." << std::endl;
+      UString where;
+      where += val;
+      std::cerr << "         gave up at char " << i << " '" << where << "'." << std::endl;
 
       UString nullString;
       return  nullString;
     }
 
-    if(i < input_word.size()-1)
+    if(i < symbols.size()-1)
     {
       current_state.restartFinals(all_finals, compoundOnlyLSymbol, &initial_state, '+');
     }
@@ -781,8 +786,10 @@ FSTProcessor::compoundAnalysisOrLowering(UString input_cased) {
   // If we failed due to state explosion, we may try again with the lowercased string:
   UString input_lowered = StringUtils::tolower(input_cased);
   State current_state = initial_state;
-  for(unsigned int i=0; i<input_lowered.size(); i++) {
-    current_state.step_case(input_lowered[i], beCaseSensitive(current_state));
+  std::vector<int32_t> symbols;
+  ustring_to_vec32(input_lowered, symbols);
+  for(auto& val : symbols) {
+    current_state.step_case(val, beCaseSensitive(current_state));
     if(current_state.size()==0) {
       break;
     }
@@ -994,12 +1001,14 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
           && last_size <= lastBlank(sf)) {
         int oldval = val;
         UString oldsf = sf;
+        unsigned int nread = 0;
         do {
           alphabet.getSymbol(sf, val);
+          nread++;
         } while ((val = readAnalysis(input)) && isAlphabetic(val));
         lf_spcmp = compoundAnalysis(sf);
         if(lf_spcmp.empty()) {  // didn't work, rewind!
-          input_buffer.back(sf.size() - oldsf.size());
+          input_buffer.back(nread);
           val = oldval;
           sf.swap(oldsf);
         }
-- 
2.43.0


From 8f04c94ed071d16cbec872cf2cee939058dbf891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:02 +0000
Subject: [PATCH 071/111] fix: compounds lost the weight of their parts and
 output before the first character

---
 lttoolbox/state.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 5c9435d..c004263 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -915,8 +915,10 @@ State::restartFinals(const std::map<Node *, double> &finals, int requiredSymbol,
     TNodeState state_i = state.at(i);
     // A state can be a possible final state and still have transitions
 
-    if(finals.count(state_i.where) > 0)
+    auto fin = finals.find(state_i.where);
+    if(fin != finals.end())
     {
+      double final_weight = fin->second;
       bool restart = lastPartHasRequiredSymbol(*(state_i.sequence), requiredSymbol, separationSymbol);
       if(restart)
       {
@@ -933,7 +935,10 @@ State::restartFinals(const std::map<Node *, double> &finals, int requiredSymbol,
               tnvec->push_back(state_i.sequence->at(k));
             }
             TNodeState tn(initst.where, tnvec, state_i.dirty);
-            tn.sequence->push_back({separationSymbol, 0.0});
+            // the weight of ending here has to be kept, and what is
+            // output before anything is read
+            tn.sequence->push_back({separationSymbol, final_weight});
+            tn.sequence->insert(tn.sequence->end(), initst.sequence->begin(), initst.sequence->end());
             state.push_back(tn);
           }
         }
-- 
2.43.0


From ad100b4110fa92f2e05af6ca66fc95c124204888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:02 +0000
Subject: [PATCH 072/111] fix: a compound was lost when a longer word begins
 like it

---
 lttoolbox/fst_processor.cc | 2 +-
 lttoolbox/state.cc         | 7 +++++--
 lttoolbox/state.h          | 4 +++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 1944669..60da6cb 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -770,7 +770,7 @@ FSTProcessor::compoundAnalysis(UString input_word)
     }
   }
 
-  current_state.pruneCompounds(compoundRSymbol, '+', compound_max_elements);
+  current_state.pruneCompounds(compoundRSymbol, '+', compound_max_elements, all_finals);
   return filterFinals(current_state, input_word);
 }
 
diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index c004263..5d5dc69 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -793,7 +793,8 @@ State::filterFinalsTM(std::map<Node *, double> const &finals,
 
 
 void
-State::pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max_elements)
+State::pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max_elements,
+                      const std::map<Node *, double> &finals)
 {
   int minNoOfCompoundElements = compound_max_elements;
   int *noOfCompoundElements = new int[state.size()];
@@ -802,7 +803,9 @@ State::pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max
   {
     std::vector<std::pair<int, double>> seq = *state.at(i).sequence;
 
-    if(lastPartHasRequiredSymbol(seq, requiredSymbol, separationSymbol))
+    // a word that is not complete cannot be better than one that is
+    if(finals.find(state.at(i).where) != finals.end()
+       && lastPartHasRequiredSymbol(seq, requiredSymbol, separationSymbol))
     {
       int this_noOfCompoundElements = 0;
       for (int j = seq.size()-2; j>0; j--) if ((seq.at(j)).first==separationSymbol) this_noOfCompoundElements++;
diff --git a/lttoolbox/state.h b/lttoolbox/state.h
index c760af1..6a32b2a 100644
--- a/lttoolbox/state.h
+++ b/lttoolbox/state.h
@@ -223,8 +223,10 @@ public:
     * @param requieredSymbol the symbol requiered in the last part
     * @param separationSymbol the symbol that represent the separation between two parts
     * @param compound_max_elements the maximum part number allowed
+    * @param finals the final nodes: only complete words are counted
     */
-  void pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max_elements);
+  void pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max_elements,
+                      const std::map<Node *, double> &finals);
 
   /**
     * Remove states containing a forbidden symbol
-- 
2.43.0


From 3b584dd8d77e4363ca7710296e1c01c68f1e0bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:02 +0000
Subject: [PATCH 073/111] fix: words were looked up in lower case despite -c

---
 lttoolbox/fst_processor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 60da6cb..5c64da6 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -783,6 +783,9 @@ FSTProcessor::compoundAnalysisOrLowering(UString input_cased) {
       return compound;
     }
   }
+  if(caseSensitive) {
+    return ""_u;
+  }
   // If we failed due to state explosion, we may try again with the lowercased string:
   UString input_lowered = StringUtils::tolower(input_cased);
   State current_state = initial_state;
-- 
2.43.0


From d7d39c37882adbad8ee8729e5a7830d84fc442fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:10 +0000
Subject: [PATCH 074/111] fix: text was lost when a partial match was longer
 than the buffer

---
 lttoolbox/buffer.h         | 122 ++++++++++++++++++-------------------
 lttoolbox/fst_processor.cc |   8 ++-
 2 files changed, 65 insertions(+), 65 deletions(-)

diff --git a/lttoolbox/buffer.h b/lttoolbox/buffer.h
index 6ea1f64..c3400d9 100644
--- a/lttoolbox/buffer.h
+++ b/lttoolbox/buffer.h
@@ -17,6 +17,7 @@
 #ifndef _BUFFER_
 #define _BUFFER_
 
+#include <algorithm>
 #include <iostream>
 #include <cstdlib>
 #include <cstring>
@@ -31,7 +32,7 @@ private:
   /**
    * Buffer size.
    */
-  unsigned int size;
+  size_t size;
 
   /**
    * Buffer array.
@@ -39,23 +40,46 @@ private:
   T *buf;
 
   /**
-   * Buffer current position.
+   * Buffer current position, counted from the first element ever added.
    */
-  unsigned int currentpos;
+  size_t currentpos;
 
   /**
    * Last position.
    */
-  unsigned int lastpos;
+  size_t lastpos;
 
+  /**
+   * Position from which on everything has to be kept.
+   */
+  size_t keptpos;
+
+  /**
+   * Whether there is such a position.
+   */
+  bool keeping;
 
   void copy(Buffer const &b)
     {
       currentpos = b.currentpos;
       lastpos = b.lastpos;
+      keptpos = b.keptpos;
+      keeping = b.keeping;
       size = b.size;
       buf = new T[size];
-      memcpy(buf, b.buf, size);
+      std::copy(b.buf, b.buf + size, buf);
+    }
+
+  void grow()
+    {
+      T *newbuf = new T[size * 2];
+      for(size_t i = lastpos - size; i != lastpos; i++)
+      {
+        newbuf[i % (size * 2)] = buf[i % size];
+      }
+      destroy();
+      buf = newbuf;
+      size *= 2;
     }
 
   void destroy()
@@ -80,6 +104,8 @@ public:
       size = buf_size;
       currentpos = 0;
       lastpos = 0;
+      keptpos = 0;
+      keeping = false;
     }
 
   /**
@@ -101,7 +127,7 @@ public:
    /**
     * Get size of buffer
     */
-   unsigned int getSize() const
+   size_t getSize() const
     {
       return size;
     }
@@ -126,13 +152,13 @@ public:
    */
   T & add(T const &value)
     {
-      if(lastpos == size)
+      if(keeping && lastpos - keptpos >= size)
       {
-        lastpos = 0;
+        grow();
       }
-      buf[lastpos++] = value;
+      buf[lastpos++ % size] = value;
       currentpos = lastpos;
-      return buf[lastpos - 1];
+      return last();
     }
 
 
@@ -143,12 +169,8 @@ public:
    */
   T & add(void)
     {
-      if(lastpos == size)
-      {
-        lastpos = 0;
-      }
       currentpos = lastpos;
-      return buf[lastpos -1];
+      return last();
     }
 
 
@@ -160,11 +182,7 @@ public:
     {
       if(currentpos != lastpos)
       {
-        if(currentpos == size)
-          {
-            currentpos = 0;
-          }
-        return buf[currentpos++];
+        return buf[currentpos++ % size];
       }
       else
       {
@@ -180,13 +198,7 @@ public:
     {
       if(currentpos != lastpos)
       {
-        if(currentpos == size)
-        {
-          return buf[0];
-        }
-        else {
-          return buf[currentpos];
-        }
+        return buf[currentpos % size];
       }
       else
       {
@@ -200,14 +212,7 @@ public:
    */
   T & last() const
     {
-      if(lastpos != 0)
-      {
-        return buf[lastpos-1];
-      }
-      else
-      {
-        return buf[size-1];
-      }
+      return buf[(lastpos + size - 1) % size];
     }
 
 
@@ -215,18 +220,28 @@ public:
    * Get the current buffer position.
    * @return the position.
    */
-  unsigned int getPos() const
+  size_t getPos() const
     {
       return currentpos;
     }
 
+  /**
+   * From now on, keep everything from the current position on, so that it
+   * is possible to go back to it.
+   */
+  void keep()
+    {
+      keptpos = currentpos;
+      keeping = true;
+    }
+
   /**
    * Set the buffer to a new position.
    * @param newpos the new position.
    */
-  void setPos(unsigned int const newpos)
+  void setPos(size_t const newpos)
     {
-      currentpos = newpos % size;
+      currentpos = newpos;
     }
 
   /**
@@ -235,16 +250,9 @@ public:
    * @param prevpos the given position.
    * @return the range size.
    */
-  unsigned int diffPrevPos(unsigned int const prevpos) const
+  size_t diffPrevPos(size_t const prevpos) const
     {
-      if(prevpos <= currentpos)
-      {
-        return currentpos - prevpos;
-      }
-      else
-      {
-        return currentpos + size - prevpos;
-      }
+      return currentpos - prevpos;
     }
 
   /**
@@ -253,16 +261,9 @@ public:
    * @param postpos the given position.
    * @return the range size.
    */
-  unsigned int diffPostPos(unsigned int const postpos) const
+  size_t diffPostPos(size_t const postpos) const
     {
-      if(postpos >= currentpos)
-      {
-        return postpos - currentpos;
-      }
-      else
-      {
-        return postpos + size - currentpos;
-      }
+      return postpos - currentpos;
     }
 
   /**
@@ -280,14 +281,7 @@ public:
    */
   void back(unsigned int const posback)
     {
-      if(currentpos > posback)
-      {
-        currentpos-=posback;
-      }
-      else
-      {
-        currentpos = size - (posback-currentpos);
-      }
+      currentpos = currentpos > posback ? currentpos - posback : 0;
     }
 };
 
diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 5c64da6..349da76 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -873,6 +873,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
   UString lf_spcmp;      // space compound analysis
   bool seen_cpL = false; // have we seen a <compound-only-L> tag so far
   size_t last_start = input_buffer.getPos(); // position in input_buffer when sf was last cleared
+  input_buffer.keep();
   size_t first_tag = UString::npos; // position in sf of the first tag read, which is never alphabetic
   size_t last = 0;       // position in input_buffer after last analysis
   size_t last_size = 0;  // size of sf at last analysis
@@ -1119,6 +1120,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       lf.clear();
       sf.clear();
       last_start = input_buffer.getPos();
+      input_buffer.keep();
       first_tag = UString::npos;
       last_incond = false;
       last_postblank = false;
@@ -1190,7 +1192,8 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
   State current_state = initial_state;
   UString lf;     //lexical form
   UString sf;     //surface form
-  int last = 0;
+  size_t last = 0;
+  input_buffer.keep();
 
   while(int32_t val = readTMAnalysis(input))
   {
@@ -1325,6 +1328,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
       lf.clear();
       sf.clear();
       numbers.clear();
+      input_buffer.keep();
     }
   }
 
@@ -2274,6 +2278,7 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
   UString sf;
   int last = 0;
   size_t last_start = input_buffer.getPos(); // position in input_buffer when sf was last cleared
+  input_buffer.keep();
 
   escaped_chars.clear();
   escaped_chars.insert('\\');
@@ -2412,6 +2417,7 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
       lf.clear();
       sf.clear();
       last_start = input_buffer.getPos();
+      input_buffer.keep();
       last_incond = false;
       last_postblank = false;
     }
-- 
2.43.0


From ecdf49f96fa44285c6ef56567c5a3d49352125fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:12 +0000
Subject: [PATCH 075/111] fix: write errors were ignored

---
 lttoolbox/file_utils.cc   | 28 ++++++++++++++++++++++++++++
 lttoolbox/file_utils.h    |  7 +++++++
 lttoolbox/lt_append.cc    |  2 +-
 lttoolbox/lt_apply_acx.cc |  2 +-
 lttoolbox/lt_comp.cc      |  2 +-
 lttoolbox/lt_compose.cc   |  2 +-
 lttoolbox/lt_expand.cc    |  2 +-
 lttoolbox/lt_invert.cc    |  2 +-
 lttoolbox/lt_merge.cc     |  1 +
 lttoolbox/lt_paradigm.cc  |  2 +-
 lttoolbox/lt_print.cc     |  2 +-
 lttoolbox/lt_proc.cc      |  2 +-
 lttoolbox/lt_restrict.cc  |  2 +-
 lttoolbox/lt_tmxcomp.cc   |  3 ++-
 lttoolbox/lt_tmxproc.cc   |  2 +-
 lttoolbox/lt_trim.cc      |  2 +-
 16 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index ab1712a..0f3161b 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -50,6 +50,34 @@ openOutBinFile(const std::string& fname)
   }
 }
 
+static void
+writeError()
+{
+  std::cerr << "Error: Cannot write output." << std::endl;
+  exit(EXIT_FAILURE);
+}
+
+void
+closeOutFile(UFILE* output)
+{
+  u_fflush(output);
+  FILE* file = u_fgetfile(output);
+  bool failed = (fflush(file) != 0 || ferror(file));
+  u_fclose(output);
+  if (failed) {
+    writeError();
+  }
+}
+
+void
+closeOutFile(FILE* output)
+{
+  bool failed = ferror(output);
+  if (fclose(output) != 0 || failed) {
+    writeError();
+  }
+}
+
 FILE*
 openInBinFile(const std::string& fname)
 {
diff --git a/lttoolbox/file_utils.h b/lttoolbox/file_utils.h
index 669e364..a0d9727 100644
--- a/lttoolbox/file_utils.h
+++ b/lttoolbox/file_utils.h
@@ -27,6 +27,13 @@ UFILE* openOutTextFile(const std::string& fname);
 FILE* openOutBinFile(const std::string& fname);
 FILE* openInBinFile(const std::string& fname);
 
+/**
+ * Close an output file. If anything could not be written, print an error
+ * message and exit.
+ */
+void closeOutFile(UFILE* output);
+void closeOutFile(FILE* output);
+
 void writeTransducerSet(FILE* output, UStringView letters,
                         Alphabet& alpha,
                         std::map<UString, Transducer>& trans);
diff --git a/lttoolbox/lt_append.cc b/lttoolbox/lt_append.cc
index 7e7ca85..082c137 100644
--- a/lttoolbox/lt_append.cc
+++ b/lttoolbox/lt_append.cc
@@ -65,7 +65,7 @@ int main(int argc, char *argv[])
 
   fclose(input1);
   fclose(input2);
-  fclose(output);
+  closeOutFile(output);
 
   return 0;
 }
diff --git a/lttoolbox/lt_apply_acx.cc b/lttoolbox/lt_apply_acx.cc
index fa5d079..00bb536 100644
--- a/lttoolbox/lt_apply_acx.cc
+++ b/lttoolbox/lt_apply_acx.cc
@@ -46,6 +46,6 @@ int main(int argc, char* argv[])
   writeTransducerSet(output, letters, alpha, trans);
 
   fclose(input);
-  fclose(output);
+  closeOutFile(output);
   return 0;
 }
diff --git a/lttoolbox/lt_comp.cc b/lttoolbox/lt_comp.cc
index 29a3bde..da0428f 100644
--- a/lttoolbox/lt_comp.cc
+++ b/lttoolbox/lt_comp.cc
@@ -177,5 +177,5 @@ int main(int argc, char *argv[])
   {
     c.write(output);
   }
-  fclose(output);
+  closeOutFile(output);
 }
diff --git a/lttoolbox/lt_compose.cc b/lttoolbox/lt_compose.cc
index abc4b62..0d29851 100644
--- a/lttoolbox/lt_compose.cc
+++ b/lttoolbox/lt_compose.cc
@@ -129,7 +129,7 @@ int main(int argc, char *argv[])
 
   fclose(transducer1);
   fclose(transducer2);
-  fclose(composition);
+  closeOutFile(composition);
 
   return 0;
 }
diff --git a/lttoolbox/lt_expand.cc b/lttoolbox/lt_expand.cc
index c472b77..13d5efe 100644
--- a/lttoolbox/lt_expand.cc
+++ b/lttoolbox/lt_expand.cc
@@ -52,7 +52,7 @@ int main(int argc, char *argv[])
   UFILE* output = openOutTextFile(cli.get_files()[1]);
 
   e.expand(cli.get_files()[0], output);
-  u_fclose(output);
+  closeOutFile(output);
 
   return EXIT_SUCCESS;
 }
diff --git a/lttoolbox/lt_invert.cc b/lttoolbox/lt_invert.cc
index bbe5584..7a45524 100644
--- a/lttoolbox/lt_invert.cc
+++ b/lttoolbox/lt_invert.cc
@@ -44,6 +44,6 @@ int main(int argc, char* argv[])
   writeTransducerSet(output, alphabetic_chars, alphabet, transducers);
 
   fclose(input);
-  fclose(output);
+  closeOutFile(output);
   return EXIT_SUCCESS;
 }
diff --git a/lttoolbox/lt_merge.cc b/lttoolbox/lt_merge.cc
index d176f20..c07c93d 100644
--- a/lttoolbox/lt_merge.cc
+++ b/lttoolbox/lt_merge.cc
@@ -50,5 +50,6 @@ int main(int argc, char *argv[])
     fstp.quoteMerge(input, output);
   }
 
+  closeOutFile(output);
   return 0;
 }
diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index ec7c23a..267e0ae 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -215,6 +215,6 @@ int main(int argc, char* argv[])
     }
   } while (!input.eof());
 
-  u_fclose(output);
+  closeOutFile(output);
   return 0;
 }
diff --git a/lttoolbox/lt_print.cc b/lttoolbox/lt_print.cc
index e392e0f..a5fb3b7 100644
--- a/lttoolbox/lt_print.cc
+++ b/lttoolbox/lt_print.cc
@@ -68,7 +68,7 @@ int main(int argc, char *argv[])
   }
 
   fclose(input);
-  u_fclose(output);
+  closeOutFile(output);
 
   return 0;
 }
diff --git a/lttoolbox/lt_proc.cc b/lttoolbox/lt_proc.cc
index 38596a9..9131e84 100644
--- a/lttoolbox/lt_proc.cc
+++ b/lttoolbox/lt_proc.cc
@@ -242,6 +242,6 @@ int main(int argc, char *argv[])
     exit(1);
   }
 
-  u_fclose(output);
+  closeOutFile(output);
   return EXIT_SUCCESS;
 }
diff --git a/lttoolbox/lt_restrict.cc b/lttoolbox/lt_restrict.cc
index 25dde74..4630277 100644
--- a/lttoolbox/lt_restrict.cc
+++ b/lttoolbox/lt_restrict.cc
@@ -119,6 +119,6 @@ int main(int argc, char* argv[])
   writeTransducerSet(output, letters, alpha, trans);
 
   fclose(input);
-  fclose(output);
+  closeOutFile(output);
   return 0;
 }
diff --git a/lttoolbox/lt_tmxcomp.cc b/lttoolbox/lt_tmxcomp.cc
index 914f30a..ed1fec8 100644
--- a/lttoolbox/lt_tmxcomp.cc
+++ b/lttoolbox/lt_tmxcomp.cc
@@ -15,6 +15,7 @@
  * along with this program; if not, see <https://www.gnu.org/licenses/>.
  */
 #include <lttoolbox/tmx_compiler.h>
+#include <lttoolbox/file_utils.h>
 #include <lttoolbox/lt_locale.h>
 #include <cstdlib>
 #include <iostream>
@@ -111,5 +112,5 @@ int main(int argc, char *argv[])
     exit(EXIT_FAILURE);
   }
   c.write(output);
-  fclose(output);
+  closeOutFile(output);
 }
diff --git a/lttoolbox/lt_tmxproc.cc b/lttoolbox/lt_tmxproc.cc
index 3746445..86c7404 100644
--- a/lttoolbox/lt_tmxproc.cc
+++ b/lttoolbox/lt_tmxproc.cc
@@ -50,6 +50,6 @@ int main(int argc, char *argv[])
 
   fstp.tm_analysis(input, output, tm_mode);
 
-  u_fclose(output);
+  closeOutFile(output);
   return EXIT_SUCCESS;
 }
diff --git a/lttoolbox/lt_trim.cc b/lttoolbox/lt_trim.cc
index 2a18584..ea97401 100644
--- a/lttoolbox/lt_trim.cc
+++ b/lttoolbox/lt_trim.cc
@@ -125,7 +125,7 @@ int main(int argc, char *argv[])
 
   fclose(analyser);
   fclose(bidix);
-  fclose(output);
+  closeOutFile(output);
 
   return 0;
 }
-- 
2.43.0


From e6b9af851cec3ba16c02bb06f82fffabbca660ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:12 +0000
Subject: [PATCH 076/111] fix: compiled transducers could not be read from a
 pipe or written to standard output

---
 lttoolbox/compression.h | 30 ++++++++++++++++++++++++++++++
 lttoolbox/file_utils.cc | 24 ++++++++++--------------
 lttoolbox/trans_exe.cc  | 20 ++++++--------------
 lttoolbox/transducer.cc | 20 ++++++--------------
 4 files changed, 52 insertions(+), 42 deletions(-)

diff --git a/lttoolbox/compression.h b/lttoolbox/compression.h
index a7aac62..b2c51a8 100644
--- a/lttoolbox/compression.h
+++ b/lttoolbox/compression.h
@@ -19,6 +19,7 @@
 
 #include <cstdio>
 #include <cstdint>
+#include <cstring>
 #include <iostream>
 #include <stdexcept>
 #include <lttoolbox/ustring.h>
@@ -102,6 +103,35 @@ inline auto read_be(std::istream& in) {
   return read_be(in, Value{});
 }
 
+/**
+ * Check if the four bytes of a header come next, and skip them if so.
+ * This also works for pipes.
+ */
+inline bool read_header(FILE *in, const char *header) {
+  char bytes[4]{};
+  fpos_t pos;
+  bool can_go_back = (fgetpos(in, &pos) == 0);
+  if (can_go_back) {
+    fread_unlocked(bytes, 1, 4, in);
+  } else {
+    int first = fgetc(in);
+    if (first != header[0]) {
+      ungetc(first, in);
+      return false;
+    }
+    bytes[0] = static_cast<char>(first);
+    fread_unlocked(bytes+1, 1, 3, in);
+  }
+  if (memcmp(bytes, header, 4) == 0) {
+    return true;
+  }
+  if (!can_go_back) {
+    throw std::runtime_error("Cannot read this file format from a pipe");
+  }
+  fsetpos(in, &pos);
+  return false;
+}
+
 /**
  * Clase "Compression".
  * Class methods to access compressed data by the byte-aligned method
diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 0f3161b..180bf59 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -102,14 +102,17 @@ writeTransducerSet(FILE* output, UStringView letters,
   uint64_t features = 0;
   write_be(output, features);
 
+  // the transducers may go to standard output themselves
+  std::ostream& log = (output == stdout ? std::cerr : std::cout);
+
   Compression::string_write(letters, output);
   alpha.write(output);
   Compression::multibyte_write(trans.size(), output);
   for (auto& it : trans) {
     Compression::string_write(it.first, output);
     it.second.write(output);
-    std::cout << it.first << " " << it.second.size();
-    std::cout << " " << it.second.numberOfTransitions() << std::endl;
+    log << it.first << " " << it.second.size();
+    log << " " << it.second.numberOfTransitions() << std::endl;
   }
 }
 
@@ -128,18 +131,11 @@ writeTransducerSet(FILE* output, const std::set<UChar32>& letters,
 void
 readShared(FILE* input, std::set<UChar32>& letters, Alphabet& alpha)
 {
-  fpos_t pos;
-  if (fgetpos(input, &pos) == 0) {
-    char header[4]{};
-    fread_unlocked(header, 1, 4, input);
-    if (strncmp(header, HEADER_LTTOOLBOX, 4) == 0) {
-      auto features = read_be<uint64_t>(input);
-      if (features >= LTF_UNKNOWN) {
-        throw std::runtime_error("FST has features that are unknown to this version of lttoolbox - upgrade!");
-      }
-    } else {
-      // Old binary format
-      fsetpos(input, &pos);
+  // otherwise this is the old binary format
+  if (read_header(input, HEADER_LTTOOLBOX)) {
+    auto features = read_be<uint64_t>(input);
+    if (features >= LTF_UNKNOWN) {
+      throw std::runtime_error("FST has features that are unknown to this version of lttoolbox - upgrade!");
     }
   }
 
diff --git a/lttoolbox/trans_exe.cc b/lttoolbox/trans_exe.cc
index b733885..898082f 100644
--- a/lttoolbox/trans_exe.cc
+++ b/lttoolbox/trans_exe.cc
@@ -68,21 +68,13 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
 {
   bool read_weights = false;
 
-  fpos_t pos;
-  if (fgetpos(input, &pos) == 0) {
-      char header[4]{};
-      fread_unlocked(header, 1, 4, input);
-      if (strncmp(header, HEADER_TRANSDUCER, 4) == 0) {
-          auto features = read_be<uint64_t>(input);
-          if (features >= TDF_UNKNOWN) {
-              throw std::runtime_error("Transducer has features that are unknown to this version of lttoolbox - upgrade!");
-          }
-          read_weights = (features & TDF_WEIGHTS);
-      }
-      else {
-          // Old binary format
-          fsetpos(input, &pos);
+  // otherwise this is the old binary format
+  if (read_header(input, HEADER_TRANSDUCER)) {
+      auto features = read_be<uint64_t>(input);
+      if (features >= TDF_UNKNOWN) {
+          throw std::runtime_error("Transducer has features that are unknown to this version of lttoolbox - upgrade!");
       }
+      read_weights = (features & TDF_WEIGHTS);
   }
 
   TransExe &new_t = *this;
diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 337b0e9..5e74765 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -586,21 +586,13 @@ Transducer::read(FILE *input, int const decalage)
 
   bool read_weights = false;
 
-  fpos_t pos;
-  if (fgetpos(input, &pos) == 0) {
-      char header[4]{};
-      fread_unlocked(header, 1, 4, input);
-      if (strncmp(header, HEADER_TRANSDUCER, 4) == 0) {
-          auto features = read_be<uint64_t>(input);
-          if (features >= TDF_UNKNOWN) {
-              throw std::runtime_error("Transducer has features that are unknown to this version of lttoolbox - upgrade!");
-          }
-          read_weights = (features & TDF_WEIGHTS);
-      }
-      else {
-          // Old binary format
-          fsetpos(input, &pos);
+  // otherwise this is the old binary format
+  if (read_header(input, HEADER_TRANSDUCER)) {
+      auto features = read_be<uint64_t>(input);
+      if (features >= TDF_UNKNOWN) {
+          throw std::runtime_error("Transducer has features that are unknown to this version of lttoolbox - upgrade!");
       }
+      read_weights = (features & TDF_WEIGHTS);
   }
 
   new_t.initial = Compression::multibyte_read(input);
-- 
2.43.0


From a261c1df13524ad9b2b6c5759fe9c7875acf6109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:54 +0000
Subject: [PATCH 077/111] fix: compiled files that are cut short were accepted

---
 lttoolbox/alphabet.cc   |  2 ++
 lttoolbox/compression.h | 11 +++++++++++
 lttoolbox/file_utils.cc |  3 +++
 lttoolbox/trans_exe.cc  |  4 ++++
 lttoolbox/transducer.cc |  4 ++++
 5 files changed, 24 insertions(+)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index c05019c..872465b 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -165,6 +165,7 @@ Alphabet::read(FILE *input)
     tam--;
     UString mytag = "<"_u;
     mytag += Compression::string_read(input);
+    check_truncated(input);
     mytag += ">"_u;
     a_new.slexicinv.push_back(mytag);
     a_new.slexic[mytag]= -a_new.slexicinv.size(); // ToDo: This does not turn the result negative due to unsigned semantics
@@ -178,6 +179,7 @@ Alphabet::read(FILE *input)
     tam--;
     int32_t first = Compression::multibyte_read(input);
     int32_t second = Compression::multibyte_read(input);
+    check_truncated(input);
     std::pair<int32_t, int32_t> tmp(first - bias, second - bias);
     int32_t spair_size = a_new.spair.size();
     a_new.spair[tmp] = spair_size;
diff --git a/lttoolbox/compression.h b/lttoolbox/compression.h
index b2c51a8..41b3873 100644
--- a/lttoolbox/compression.h
+++ b/lttoolbox/compression.h
@@ -19,6 +19,7 @@
 
 #include <cstdio>
 #include <cstdint>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <stdexcept>
@@ -103,6 +104,16 @@ inline auto read_be(std::istream& in) {
   return read_be(in, Value{});
 }
 
+/**
+ * Exit with an error message if the end of the file has been passed.
+ */
+inline void check_truncated(FILE *in) {
+  if (feof(in) || ferror(in)) {
+    std::cerr << "Error: Unexpected end of file." << std::endl;
+    exit(EXIT_FAILURE);
+  }
+}
+
 /**
  * Check if the four bytes of a header come next, and skip them if so.
  * This also works for pipes.
diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 180bf59..83ce9c7 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -141,6 +141,7 @@ readShared(FILE* input, std::set<UChar32>& letters, Alphabet& alpha)
 
   for (int len = Compression::multibyte_read(input); len > 0; len--) {
     letters.insert(static_cast<UChar32>(Compression::multibyte_read(input)));
+    check_truncated(input);
   }
 
   alpha.read(input);
@@ -157,6 +158,7 @@ readTransducerSet(FILE* input, std::set<UChar32>& letters,
     UString name = Compression::string_read(input);
     trans[name].read(input);
   }
+  check_truncated(input);
 }
 
 void
@@ -170,4 +172,5 @@ readTransducerSet(FILE* input, std::set<UChar32>& letters,
     UString name = Compression::string_read(input);
     trans[name].read(input, alpha);
   }
+  check_truncated(input);
 }
diff --git a/lttoolbox/trans_exe.cc b/lttoolbox/trans_exe.cc
index 898082f..4c08ffa 100644
--- a/lttoolbox/trans_exe.cc
+++ b/lttoolbox/trans_exe.cc
@@ -96,11 +96,13 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
     {
       base_weight = Compression::long_multibyte_read(input);
     }
+    check_truncated(input);
     myfinals.insert({base, base_weight});
   }
 
 
   base = Compression::multibyte_read(input);
+  check_truncated(input);
 
   int number_of_states = base;
   int current_state = 0;
@@ -115,6 +117,7 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
   while(number_of_states > 0)
   {
     int number_of_local_transitions = Compression::multibyte_read(input);
+    check_truncated(input);
     int tagbase = 0;
     Node &mynode = new_t.node_list[current_state];
 
@@ -127,6 +130,7 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
       {
         base_weight = Compression::long_multibyte_read(input);
       }
+      check_truncated(input);
       int i_symbol = alphabet.decode(tagbase).first;
       int o_symbol = alphabet.decode(tagbase).second;
 
diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 5e74765..98bf207 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -609,15 +609,18 @@ Transducer::read(FILE *input, int const decalage)
     {
       base_weight = Compression::long_multibyte_read(input);
     }
+    check_truncated(input);
     new_t.finals.insert({base, base_weight});
   }
 
   base = Compression::multibyte_read(input);
+  check_truncated(input);
   int number_of_states = base;
   int current_state = 0;
   while(number_of_states > 0)
   {
     int number_of_local_transitions = Compression::multibyte_read(input);
+    check_truncated(input);
     int tagbase = 0;
     if (new_t.transitions.find(current_state) == new_t.transitions.end()) {
       new_t.transitions[current_state].clear(); // force create
@@ -631,6 +634,7 @@ Transducer::read(FILE *input, int const decalage)
       {
         base_weight = Compression::long_multibyte_read(input);
       }
+      check_truncated(input);
       if(new_t.transitions.find(state) == new_t.transitions.end())
       {
         new_t.transitions[state].clear(); // force create
-- 
2.43.0


From 74f17090aeea784233e16730a809f123170141fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:15 +0000
Subject: [PATCH 078/111] fix: dictionaries that are cut short were compiled
 and expanded with success

---
 lttoolbox/compiler.cc     | 1 +
 lttoolbox/expander.cc     | 1 +
 lttoolbox/tmx_compiler.cc | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index b5b1295..ae75bd8 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -62,6 +62,7 @@ Compiler::parse(std::string const &file, UStringView dir)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 44bb86a..1491a25 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -58,6 +58,7 @@ Expander::expand(std::string const &file, UFILE* output)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
diff --git a/lttoolbox/tmx_compiler.cc b/lttoolbox/tmx_compiler.cc
index e42a5f0..ae85b45 100644
--- a/lttoolbox/tmx_compiler.cc
+++ b/lttoolbox/tmx_compiler.cc
@@ -72,6 +72,7 @@ TMXCompiler::parse(std::string const &file, UStringView lo, UStringView lm)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
-- 
2.43.0


From bef5f30baa04baab764eb65d4649b00f0af7f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:31 +0000
Subject: [PATCH 079/111] fix: malformed or non-BMP values in ICX and RCX files
 were misread

---
 lttoolbox/fst_processor.cc | 26 +++++++++++++++++++++++---
 lttoolbox/fst_processor.h  |  1 +
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 349da76..1837e13 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -81,6 +81,10 @@ FSTProcessor::parseICX(std::string const &file)
       procNodeICX();
       ret = xmlTextReaderRead(reader);
     }
+    if(ret != 0)
+    {
+      XMLParseUtil::error_and_die(reader, "Parse error.");
+    }
     // No point trying to process ignored chars if there are none
     if(ignored_chars.size() == 0)
     {
@@ -106,7 +110,23 @@ FSTProcessor::parseRCX(std::string const &file)
       procNodeRCX();
       ret = xmlTextReaderRead(reader);
     }
+    if(ret != 0)
+    {
+      XMLParseUtil::error_and_die(reader, "Parse error.");
+    }
+  }
+}
+
+int32_t
+FSTProcessor::readCharValue()
+{
+  std::vector<int32_t> value;
+  ustring_to_vec32(XMLParseUtil::attrib(reader, XML_VALUE_ATTR), value);
+  if(value.empty())
+  {
+    XMLParseUtil::error_and_die(reader, "Missing or empty value attribute.");
   }
+  return value[0];
 }
 
 void
@@ -123,7 +143,7 @@ FSTProcessor::procNodeICX()
   }
   else if(name == XML_CHAR_ELEM)
   {
-    ignored_chars.insert(static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]));
+    ignored_chars.insert(readCharValue());
   }
   else if(name == XML_COMMENT_NODE)
   {
@@ -157,11 +177,11 @@ FSTProcessor::procNodeRCX()
   }
   else if(name == XML_CHAR_ELEM)
   {
-    rcx_current_char = static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]);
+    rcx_current_char = readCharValue();
   }
   else if(name == XML_RESTORE_CHAR_ELEM)
   {
-    rcx_map[rcx_current_char].insert(static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]));
+    rcx_map[rcx_current_char].insert(readCharValue());
   }
   else if(name == XML_COMMENT_NODE)
   {
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index 2ab1769..4e82215 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -445,6 +445,7 @@ private:
                   bool delim = false, bool mark = false) const;
   bool step_biltrans(UStringView word, std::vector<UString>& result, UString& queue);
 
+  int32_t readCharValue();
   void procNodeICX();
   void procNodeRCX();
   void initDefaultIgnoredCharacters();
-- 
2.43.0


From b505d1d71da3fe06f82d91e64e82e153a745021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:47 +0000
Subject: [PATCH 080/111] fix: restored characters were lowered with tolower()

---
 lttoolbox/fst_processor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 1837e13..94177a3 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -987,14 +987,14 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       }
       else if(rcx_map.find(u_tolower(val)) != rcx_map.end())
       {
-        rcx_map_ptr = rcx_map.find(tolower(val));
-        tmpset.insert(tolower(val));
+        rcx_map_ptr = rcx_map.find(u_tolower(val));
+        tmpset.insert(u_tolower(val));
         tmpset.insert(rcx_map_ptr->second.begin(), rcx_map_ptr->second.end());
         current_state.step(val, tmpset);
       }
       else
       {
-        tmpset.insert(tolower(val));
+        tmpset.insert(u_tolower(val));
         current_state.step(val, tmpset);
       }
     }
-- 
2.43.0


From 84fa80956b7887915690785f2464994f35481cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:12 +0000
Subject: [PATCH 081/111] fix: -I had no effect together with -i

---
 lttoolbox/fst_processor.cc | 5 +++++
 lttoolbox/lt_proc.cc       | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 94177a3..0c35d22 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2512,6 +2512,11 @@ void
 FSTProcessor::setUseDefaultIgnoredChars(bool value)
 {
   useDefaultIgnoredChars = value;
+  ignored_chars.clear();
+  if(useDefaultIgnoredChars)
+  {
+    initDefaultIgnoredCharacters();
+  }
 }
 
 void
diff --git a/lttoolbox/lt_proc.cc b/lttoolbox/lt_proc.cc
index 9131e84..f087e6b 100644
--- a/lttoolbox/lt_proc.cc
+++ b/lttoolbox/lt_proc.cc
@@ -136,6 +136,9 @@ int main(int argc, char *argv[])
   fstp.setDictionaryCaseMode(cli.get_bools()["dictionary-case"]);
 
   auto strs = cli.get_strs();
+  if (strs.find("restore-chars") != strs.end()) {
+    fstp.setUseDefaultIgnoredChars(false);
+  }
   if (strs.find("ignored-chars") != strs.end()) {
     fstp.setIgnoredChars(true);
     for (auto& it : strs["ignored-chars"]) {
@@ -144,7 +147,6 @@ int main(int argc, char *argv[])
   }
   if (strs.find("restore-chars") != strs.end()) {
     fstp.setRestoreChars(true);
-    fstp.setUseDefaultIgnoredChars(false);
     for (auto& it : strs["restore-chars"]) {
       fstp.parseRCX(it);
     }
-- 
2.43.0


From 705dd942face9c609d063ec4003be79c538fa996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:21 +0000
Subject: [PATCH 082/111] fix: empty attributes in ACX files crashed

---
 lttoolbox/xml_walk_util.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/xml_walk_util.cc b/lttoolbox/xml_walk_util.cc
index e4afe73..76526fd 100644
--- a/lttoolbox/xml_walk_util.cc
+++ b/lttoolbox/xml_walk_util.cc
@@ -84,7 +84,8 @@ getattr(xmlNode* node, const char* attr)
 {
   for (xmlAttr* i = node->properties; i != NULL; i = i->next) {
     if (!xmlStrcmp(i->name, (const xmlChar*) attr)) {
-      return to_ustring((const char*) i->children->content);
+      // an empty attribute has no children
+      return i->children ? to_ustring((const char*) i->children->content) : UString();
     }
   }
   return ""_u;
@@ -95,7 +96,8 @@ getattr(xmlNode* node, UStringView attr, UStringView fallback)
 {
   for (xmlAttr* i = node->properties; i != NULL; i = i->next) {
     if (to_ustring((const char*) i->name) == attr) {
-      return to_ustring((const char*) i->children->content);
+      // an empty attribute has no children
+      return i->children ? to_ustring((const char*) i->children->content) : UString();
     }
   }
   return US(fallback);
-- 
2.43.0


From 8b8a87f374d4279dbb91ea5bdf4439262cafd318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:56 +0000
Subject: [PATCH 083/111] fix: ICX files after an empty one were not read

---
 lttoolbox/fst_processor.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 0c35d22..ca6a28f 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -85,11 +85,6 @@ FSTProcessor::parseICX(std::string const &file)
     {
       XMLParseUtil::error_and_die(reader, "Parse error.");
     }
-    // No point trying to process ignored chars if there are none
-    if(ignored_chars.size() == 0)
-    {
-      useIgnoredChars = false;
-    }
   }
 }
 
-- 
2.43.0


From 191ce60d206c5e1a2efa9dc9f850ee9baecddba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:34 +0000
Subject: [PATCH 084/111] fix: lt-tmxproc aborted on malformed streams

---
 lttoolbox/lt_tmxproc.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/lt_tmxproc.cc b/lttoolbox/lt_tmxproc.cc
index 86c7404..0c87c04 100644
--- a/lttoolbox/lt_tmxproc.cc
+++ b/lttoolbox/lt_tmxproc.cc
@@ -48,7 +48,13 @@ int main(int argc, char *argv[])
   }
   UFILE* output = openOutTextFile(cli.get_files()[2].c_str());
 
-  fstp.tm_analysis(input, output, tm_mode);
+  try {
+    fstp.tm_analysis(input, output, tm_mode);
+  } catch (std::exception& e) {
+    std::cerr << e.what();
+    u_fputc('\0', output);
+    exit(EXIT_FAILURE);
+  }
 
   closeOutFile(output);
   return EXIT_SUCCESS;
-- 
2.43.0


From 1c1611f8cb96d5f0414469153fa69f82fc8c3b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:55 +0000
Subject: [PATCH 085/111] fix: numbers in translation memories were read out of
 bounds or mixed up after going back

---
 lttoolbox/fst_processor.cc | 13 ++++++++++---
 lttoolbox/fst_processor.h  |  5 +++++
 lttoolbox/state.cc         |  6 +++---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index ca6a28f..556d884 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -275,6 +275,11 @@ FSTProcessor::readTMAnalysis(InputFile& input)
   isLastBlankTM = false;
   if(!input_buffer.isEmpty())
   {
+    auto number = number_positions.find(input_buffer.getPos());
+    if(number != number_positions.end())
+    {
+      numbers.push_back(number->second);
+    }
     return input_buffer.next();
   }
 
@@ -333,6 +338,8 @@ FSTProcessor::readTMAnalysis(InputFile& input)
             val = input.get();
           } while(u_isdigit(val));
           input.unget(val);
+          // it is read again after going back
+          number_positions[input_buffer.getPos()] = ws;
           input_buffer.add(alphabet(u"<n>"));
           numbers.push_back(ws);
           return alphabet(u"<n>");
@@ -1221,7 +1228,6 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
                                           escaped_chars,
                                           blankqueue, numbers).substr(1);
         last = input_buffer.getPos();
-        numbers.clear();
       }
     }
     else if(sf.empty() && u_isspace(val))
@@ -1234,7 +1240,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
 
     if(current_state.size() != 0)
     {
-      if(val == -1)
+      if(val == -1 && !numbers.empty())
       {
         sf.append(numbers[numbers.size()-1]);
       }
@@ -1271,7 +1277,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
 
         do
         {
-          if(val == -1)
+          if(val == -1 && !numbers.empty())
           {
             sf.append(numbers[numbers.size()-1]);
           }
@@ -1343,6 +1349,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
       lf.clear();
       sf.clear();
       numbers.clear();
+      number_positions.erase(number_positions.begin(), number_positions.lower_bound(input_buffer.getPos()));
       input_buffer.keep();
     }
   }
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index 4e82215..4c8f9a2 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -396,6 +396,11 @@ private:
   void initDecompositionSymbols();
 
   std::vector<UString> numbers;
+
+  /**
+   * The numbers by their position in the input buffer
+   */
+  std::map<size_t, UString> number_positions;
   int readTMAnalysis(InputFile& input);
 
   unsigned int lastBlank(UStringView str);
diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 5d5dc69..120c6a2 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -748,7 +748,7 @@ State::filterFinalsTM(std::map<Node *, double> const &finals,
           if(fragment[i].size()-j > 3 && fragment[i][j] == '\\' &&
              fragment[i][j+1] == '@' && fragment[i][j+2] == '(')
           {
-            int num = 0;
+            size_t num = 0;
             bool correct = true;
             for(unsigned int k = (unsigned int) j+3, limit2 = fragment[i].size();
                 k != limit2; k++)
@@ -756,7 +756,7 @@ State::filterFinalsTM(std::map<Node *, double> const &finals,
               if(u_isdigit(fragment[i][k]))
               {
                 num = num * 10;
-                num += (int) fragment[i][k] - 48;
+                num += u_charDigitValue(fragment[i][k]);
               }
               else
               {
@@ -764,7 +764,7 @@ State::filterFinalsTM(std::map<Node *, double> const &finals,
                 break;
               }
             }
-            if(correct)
+            if(correct && num >= 1 && num <= numbers.size())
             {
               fragment[i] = fragment[i].substr(0, j) + numbers[num - 1];
               substitute = true;
-- 
2.43.0


From d5b06df7a5306c23d0dc1e995f472766015cdd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:08 +0000
Subject: [PATCH 086/111] fix: copying a MatchState wrote through an
 uninitialised pointer

---
 lttoolbox/match_state.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/match_state.cc b/lttoolbox/match_state.cc
index 097af0d..bfd8196 100644
--- a/lttoolbox/match_state.cc
+++ b/lttoolbox/match_state.cc
@@ -33,7 +33,8 @@ MatchState::~MatchState()
   destroy();
 }
 
-MatchState::MatchState(MatchState const &s)
+MatchState::MatchState(MatchState const &s) :
+state(0)
 {
   copy(s);
 }
-- 
2.43.0


From a50ad236566a678b9e8030619a6fc4bb352f305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:08 +0000
Subject: [PATCH 087/111] fix: a copied MatchExe went on using the nodes of the
 original

---
 lttoolbox/match_exe.cc     | 13 ++++++++++++-
 lttoolbox/match_node.h     |  1 +
 lttoolbox/sorted_vector.cc | 10 ++++++++++
 lttoolbox/sorted_vector.h  |  6 ++++++
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/match_exe.cc b/lttoolbox/match_exe.cc
index 85d2497..a6982ca 100644
--- a/lttoolbox/match_exe.cc
+++ b/lttoolbox/match_exe.cc
@@ -86,7 +86,18 @@ MatchExe::copy(MatchExe const &te)
 {
   initial_id = te.initial_id;
   node_list = te.node_list;
-  finals = te.finals;
+  finals.clear();
+
+  // the nodes refer to each other by their addresses
+  MatchNode const *from = te.node_list.data();
+  for(auto& it : node_list)
+  {
+    it.transitions.rebase(from, node_list.data());
+  }
+  for(auto& it : te.finals)
+  {
+    finals[node_list.data() + (it.first - from)] = it.second;
+  }
 }
 
 void
diff --git a/lttoolbox/match_node.h b/lttoolbox/match_node.h
index 7ac5c64..257cdea 100644
--- a/lttoolbox/match_node.h
+++ b/lttoolbox/match_node.h
@@ -39,6 +39,7 @@ class MatchNode
 {
 private:
   friend class MatchState;
+  friend class MatchExe;
 
   /**
    * The outgoing transitions from this node.
diff --git a/lttoolbox/sorted_vector.cc b/lttoolbox/sorted_vector.cc
index dad1980..bdf9966 100644
--- a/lttoolbox/sorted_vector.cc
+++ b/lttoolbox/sorted_vector.cc
@@ -15,6 +15,7 @@
  * along with this program; if not, see <https://www.gnu.org/licenses/>.
  */
 #include <lttoolbox/sorted_vector.h>
+#include <lttoolbox/match_node.h>
 #include <cstdlib>
 
 
@@ -96,3 +97,12 @@ SortedVector::search(int tag)
 
   return NULL;
 }
+
+void
+SortedVector::rebase(MatchNode const *from, MatchNode *to)
+{
+  for(int i = 0; i != size; i++)
+  {
+    sv[i].dest = to + (sv[i].dest - from);
+  }
+}
diff --git a/lttoolbox/sorted_vector.h b/lttoolbox/sorted_vector.h
index 0752240..b8d6a63 100644
--- a/lttoolbox/sorted_vector.h
+++ b/lttoolbox/sorted_vector.h
@@ -88,6 +88,12 @@ public:
    * @returns the destination MatchNode pointer
    */
   MatchNode * search(int tag);
+
+  /**
+   * Makes the destinations, which lie in the array that starts at from,
+   * point to the same places in the array that starts at to
+   */
+  void rebase(MatchNode const *from, MatchNode *to);
 };
 
 #endif
-- 
2.43.0


From 34de68ac9238dabf697eb5c7d15fe59d357f09ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:48 +0000
Subject: [PATCH 088/111] fix: patterns with and without a queue before a join
 hid or extended each other

---
 lttoolbox/pattern_list.cc | 68 +++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/lttoolbox/pattern_list.cc b/lttoolbox/pattern_list.cc
index b476de3..27e606f 100644
--- a/lttoolbox/pattern_list.cc
+++ b/lttoolbox/pattern_list.cc
@@ -21,6 +21,7 @@
 
 #include <cstdlib>
 #include <iostream>
+#include <set>
 
 void
 PatternList::copy(PatternList const &o)
@@ -301,59 +302,58 @@ PatternList::buildTransducer()
   for(auto it = patterns.begin(), limit = patterns.end();
       it != limit; it++)
   {
-    int state = transducer.getInitial();
-    int prevstate = -1;
-    for(unsigned int i = 0, limit2 = it->second.size(); i != limit2; i++)
+    // the states reached with and without the optional queues; these paths
+    // can't share states, or patterns without a queue would get one too
+    std::set<int> states = {transducer.getInitial()};
+    bool after_queue = false;
+    for(auto const val : it->second)
     {
-      int const val = it->second[i];
-      if(alphabet(ANY_CHAR) == val || alphabet(ANY_TAG) == val)
+      if(alphabet(QUEUE) == val)
       {
-        state = transducer.insertSingleTransduction(val, state, default_weight);
-        if(prevstate != -1)
-        {
-          transducer.linkStates(prevstate, state, val, default_weight);
-          prevstate = -1;
-        }
-        transducer.linkStates(state, state, val, default_weight);
-      }
-      else if(alphabet(QUEUE) == val)
-      {
-        if(prevstate != -1)
+        if(after_queue)
         {
           // ignore second (and next) possible consecutive queues
           continue;
         }
+        after_queue = true;
 
         // optional queue
-        prevstate = state;
-        state = transducer.insertSingleTransduction(static_cast<int>('_'), state, default_weight);
-        transducer.linkStates(prevstate, state, static_cast<int>(' '), default_weight);
-        transducer.linkStates(prevstate, state, static_cast<int>('#'), default_weight);
-        transducer.linkStates(state, state, alphabet(ANY_CHAR), default_weight);
+        std::set<int> queues;
+        for(auto const prevstate : states)
+        {
+          int const state = transducer.insertSingleTransduction(static_cast<int>('_'), prevstate, default_weight);
+          transducer.linkStates(prevstate, state, static_cast<int>(' '), default_weight);
+          transducer.linkStates(prevstate, state, static_cast<int>('#'), default_weight);
+          transducer.linkStates(state, state, alphabet(ANY_CHAR), default_weight);
+          queues.insert(state);
+        }
+        states.insert(queues.begin(), queues.end());
       }
       else
       {
-        state = transducer.insertSingleTransduction(val, state, default_weight);
-        if(prevstate != -1)
+        after_queue = false;
+
+        std::set<int> next;
+        for(auto const prevstate : states)
         {
-          transducer.linkStates(prevstate, state, val, default_weight);
-          prevstate = -1;
+          int const state = transducer.insertSingleTransduction(val, prevstate, default_weight);
+          if(alphabet(ANY_CHAR) == val || alphabet(ANY_TAG) == val)
+          {
+            transducer.linkStates(state, state, val, default_weight);
+          }
+          next.insert(state);
         }
+        states.swap(next);
       }
     }
-    if(prevstate != -1)
+    for(auto const state : states)
     {
-      if(!transducer.isFinal(prevstate))
+      if(!transducer.isFinal(state))
       {
-        transducer.setFinal(prevstate, default_weight);
-        final_type[prevstate] = it->first;
+        transducer.setFinal(state, default_weight);
+        final_type[state] = it->first;
       }
     }
-    if(!transducer.isFinal(state))
-    {
-      transducer.setFinal(state, default_weight);
-      final_type[state] = it->first;
-    }
   }
 }
 
-- 
2.43.0


From 2b6dfbb91a178f3f967e3256de85be11c33a1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:26 +0000
Subject: [PATCH 089/111] fix: pattern matching lost its state when wildcards
 matched in many ways

---
 lttoolbox/match_state.cc | 16 ++++++++++++----
 lttoolbox/match_state.h  |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/match_state.cc b/lttoolbox/match_state.cc
index bfd8196..71fcd8c 100644
--- a/lttoolbox/match_state.cc
+++ b/lttoolbox/match_state.cc
@@ -89,11 +89,19 @@ MatchState::init(MatchNode *initial)
 }
 
 void
-MatchState::applySymbol(MatchNode *pnode, int const symbol)
+MatchState::applySymbol(MatchNode *pnode, int const symbol, int const start)
 {
   MatchNode *aux = pnode->transitions.search(symbol);
   if(aux != NULL)
   {
+    // reached before; adding it again could fill the buffer
+    for(int i = start; i != last; i = (i+1)%BUF_LIMIT)
+    {
+      if(state[i] == aux)
+      {
+        return;
+      }
+    }
     state[last] = aux;
     last = (last + 1)%BUF_LIMIT;
   }
@@ -105,7 +113,7 @@ MatchState::step(int const input)
   int mylast = last;
   for(int i = first; i != mylast; i=(i+1)%BUF_LIMIT)
   {
-    applySymbol(state[i], input);
+    applySymbol(state[i], input, mylast);
   }
   first = mylast;
 }
@@ -116,8 +124,8 @@ MatchState::step(int const input, int const alt)
   int mylast = last;
   for(int i = first; i != mylast; i=(i+1)%BUF_LIMIT)
   {
-    applySymbol(state[i], input);
-    applySymbol(state[i], alt);
+    applySymbol(state[i], input, mylast);
+    applySymbol(state[i], alt, mylast);
   }
   first = mylast;
 }
diff --git a/lttoolbox/match_state.h b/lttoolbox/match_state.h
index 8e86d83..07d9c19 100644
--- a/lttoolbox/match_state.h
+++ b/lttoolbox/match_state.h
@@ -53,7 +53,7 @@ private:
   void destroy();
 
 
-  void applySymbol(MatchNode *pnode, int const symbol);
+  void applySymbol(MatchNode *pnode, int const symbol, int const start);
 public:
   /**
    * Constructor
-- 
2.43.0


From 37e5a69f391b1eb4b3b2be3978089e30e763f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:50 +0000
Subject: [PATCH 090/111] fix: trimming a string of white space read past its
 end

---
 lttoolbox/string_utils.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/string_utils.cc b/lttoolbox/string_utils.cc
index 57ae9d8..468e8dd 100644
--- a/lttoolbox/string_utils.cc
+++ b/lttoolbox/string_utils.cc
@@ -16,15 +16,18 @@ StringUtils::trim(UStringView str)
   size_t end = str.size();
   size_t i = 0;
   UChar32 c;
-  while (begin < end) {
+  while (i < end) {
     U16_GET(str.data(), begin, i, end, c);
     if (!u_isspace(c)) {
-      begin = i;
       break;
     } else {
       U16_FWD_1(str.data(), i, end);
     }
   }
+  begin = i;
+  if (begin == end) {
+    return str.substr(begin);
+  }
   i = str.size();
   U16_BACK_1(str.data(), 0, i);
   U16_GET(str.data(), 0, i, end, c);
-- 
2.43.0


From ccb80449035f44b1496b9f7a700009e843c3b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:50 +0000
Subject: [PATCH 091/111] fix: upper-casing characters that become three exited
 with an error

---
 lttoolbox/string_utils.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/string_utils.cc b/lttoolbox/string_utils.cc
index 468e8dd..e078bb0 100644
--- a/lttoolbox/string_utils.cc
+++ b/lttoolbox/string_utils.cc
@@ -176,9 +176,9 @@ StringUtils::stod(const UString& str)
 UString
 StringUtils::tolower(UStringView str)
 {
-  UString buf(str.size()*2, 0);
+  UString buf(str.size()*3, 0); // some characters become three
   UErrorCode err = U_ZERO_ERROR;
-  buf.resize(u_strToLower(&buf[0], str.size() * 2, str.data(), str.size(), NULL, &err));
+  buf.resize(u_strToLower(&buf[0], buf.size(), str.data(), str.size(), NULL, &err));
   if (U_FAILURE(err)) {
     std::cerr << "Error: unable to lowercase string '" << str << "'.\n";
     std::cerr << "error code: " << u_errorName(err) << std::endl;
@@ -190,9 +190,9 @@ StringUtils::tolower(UStringView str)
 UString
 StringUtils::toupper(UStringView str)
 {
-  UString buf(str.size()*2, 0);
+  UString buf(str.size()*3, 0); // some characters become three
   UErrorCode err = U_ZERO_ERROR;
-  buf.resize(u_strToUpper(&buf[0], str.size()*2, str.data(), str.size(), NULL, &err));
+  buf.resize(u_strToUpper(&buf[0], buf.size(), str.data(), str.size(), NULL, &err));
   if (U_FAILURE(err)) {
     std::cerr << "Error: unable to uppercase string '" << str << "'.\n";
     std::cerr << "error code: " << u_errorName(err) << std::endl;
@@ -204,9 +204,9 @@ StringUtils::toupper(UStringView str)
 UString
 StringUtils::totitle(UStringView str)
 {
-  UString buf(str.size()*2, 0);
+  UString buf(str.size()*3, 0); // some characters become three
   UErrorCode err = U_ZERO_ERROR;
-  buf.resize(u_strToTitle(&buf[0], str.size()*2, str.data(), str.size(), NULL, NULL, &err));
+  buf.resize(u_strToTitle(&buf[0], buf.size(), str.data(), str.size(), NULL, NULL, &err));
   if (U_FAILURE(err)) {
     std::cerr << "Error: unable to titlecase string '" << str << "'.\n";
     std::cerr << "error code: " << u_errorName(err) << std::endl;
-- 
2.43.0


From 4be06490ae4830d2728958c75aaca99b479c7303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:43 +0000
Subject: [PATCH 092/111] fix: numbers that are none were read as 0

---
 lttoolbox/compiler.cc     |  7 ++++++-
 lttoolbox/string_utils.cc | 13 ++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index ae75bd8..77e84b0 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -22,6 +22,7 @@
 #include <lttoolbox/regexp_compiler.h>
 
 #include <iostream>
+#include <stdexcept>
 #include <thread>
 
 Compiler::Compiler()
@@ -823,7 +824,11 @@ Compiler::procEntry()
   double weight = 0.0;
   if(!wsweight.empty())
   {
-    weight = StringUtils::stod(wsweight);
+    try {
+      weight = StringUtils::stod(wsweight);
+    } catch (const std::invalid_argument&) {
+      XMLParseUtil::error_and_die(reader, "Invalid weight '%S'.", wsweight.c_str());
+    }
   }
 
   if (entry_debugging && current_paradigm.empty()) {
diff --git a/lttoolbox/string_utils.cc b/lttoolbox/string_utils.cc
index e078bb0..4161004 100644
--- a/lttoolbox/string_utils.cc
+++ b/lttoolbox/string_utils.cc
@@ -147,8 +147,10 @@ int
 StringUtils::stoi(const UString& str)
 {
   int ret;
-  int c = u_sscanf(str.c_str(), "%d", &ret);
-  if (c != 1) {
+  int32_t len = 0;
+  // it counts the number as read even if there isn't any
+  int c = u_sscanf(str.c_str(), "%d%n", &ret, &len);
+  if (c != 1 || len == 0) {
     throw std::invalid_argument("unable to parse int");
   }
   return ret;
@@ -158,7 +160,12 @@ double
 StringUtils::stod(const UString& str)
 {
   double ret;
-  int c = u_sscanf(str.c_str(), "%lf", &ret);
+  int32_t len = 0;
+  // it counts the number as read even if there isn't any
+  int c = u_sscanf(str.c_str(), "%lf%n", &ret, &len);
+  if (len == 0) {
+    c = 0;
+  }
   if (str.size() == 3 && str[0] == 'i' && str[1] == 'n' && str[2] == 'f') {
     ret = std::numeric_limits<double>::infinity();
     c = 1;
-- 
2.43.0


From a8547ab89008ea7dd250c6744e3caa910a379265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:25 +0000
Subject: [PATCH 093/111] fix: a regular expression ending in a backslash was
 read past its end

---
 lttoolbox/regexp_compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/regexp_compiler.cc b/lttoolbox/regexp_compiler.cc
index b9f8ab0..a875df9 100644
--- a/lttoolbox/regexp_compiler.cc
+++ b/lttoolbox/regexp_compiler.cc
@@ -397,7 +397,7 @@ RegexpCompiler::Lista()
 void
 RegexpCompiler::Reservado()
 {
-  if(isReserved(token))
+  if(isReserved(token) && token != FIN_FICHERO)
   {
     consume(token);
   }
-- 
2.43.0


From 990af00bc1ed68b1b795945fafc58652ffd2dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:25 +0000
Subject: [PATCH 094/111] fix: what follows an unopened parenthesis in a
 regular expression was ignored

---
 lttoolbox/regexp_compiler.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/regexp_compiler.cc b/lttoolbox/regexp_compiler.cc
index a875df9..7f7dcd9 100644
--- a/lttoolbox/regexp_compiler.cc
+++ b/lttoolbox/regexp_compiler.cc
@@ -123,10 +123,14 @@ void
 RegexpCompiler::compile(std::vector<int32_t> const &er)
 {
   input = er;
-  token = input[0];
+  token = input.empty() ? FIN_FICHERO : input[0];
   index = 0;
   state = transducer.getInitial();
   S();
+  if(token != FIN_FICHERO)
+  {
+    error();
+  }
   transducer.setFinal(state, default_weight);
 }
 
-- 
2.43.0


From 68b17695968d8131847def51d909caf29819f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:03 +0000
Subject: [PATCH 095/111] fix: characters of the previous file were read after
 opening another or rewinding

---
 lttoolbox/input_file.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lttoolbox/input_file.cc b/lttoolbox/input_file.cc
index 51ecb9d..6b2d08a 100644
--- a/lttoolbox/input_file.cc
+++ b/lttoolbox/input_file.cc
@@ -66,6 +66,7 @@ InputFile::open_or_exit(const char* fname)
 void
 InputFile::close()
 {
+  buffer_size = 0;
   if (infile != nullptr) {
     if (infile != stdin) {
       fclose(infile);
@@ -158,6 +159,7 @@ InputFile::eof()
 void
 InputFile::rewind()
 {
+  buffer_size = 0;
   if (infile != nullptr) {
     if (std::fseek(infile, 0, SEEK_SET) != 0) {
       std::cerr << "Error: Unable to rewind file" << std::endl;
-- 
2.43.0


From b60d3c8f1b0abfebe68dc48daa01806a34e76648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:57 +0000
Subject: [PATCH 096/111] fix: unknown long options were looked for past the
 end of the table

---
 lttoolbox/cli.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/cli.cc b/lttoolbox/cli.cc
index c1a78bb..8accb16 100644
--- a/lttoolbox/cli.cc
+++ b/lttoolbox/cli.cc
@@ -124,7 +124,7 @@ void CLI::parse_args(int argc, char* argv[])
   prog_name = basename(argv[0]);
   std::string arg_str;
 #if HAVE_GETOPT_LONG
-  std::vector<struct option> long_options(options.size());
+  std::vector<struct option> long_options(options.size() + 1); // the last stays empty
   int option_index = 0;
 #endif
   for (size_t i = 0; i < options.size(); i++) {
-- 
2.43.0


From a4034233be6937f877cafbbe02c4459d38609fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:41 +0000
Subject: [PATCH 097/111] fix: text that could still become a segment of the
 translation memory was lost at the end of the input

---
 lttoolbox/fst_processor.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 556d884..9798f50 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1354,6 +1354,13 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
     }
   }
 
+  // print what may still have become a segment
+  if(!sf.empty())
+  {
+    write(sf, output);
+    blankqueue = {};
+  }
+
   // print remaining blanks
   flushBlanks(output);
 }
-- 
2.43.0


From a8fa201a12efac24cbfd397d4e8f187d30f7671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:41 +0000
Subject: [PATCH 098/111] fix: escaped characters were written without their
 backslash by lt-tmxproc

---
 lttoolbox/fst_processor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 9798f50..4148577 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1250,6 +1250,10 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
       }
       else
       {
+        if(isEscaped(val))
+        {
+          sf += '\\';
+        }
         alphabet.getSymbol(sf, val);
       }
     }
@@ -1287,6 +1291,10 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
           }
           else
           {
+            if(isEscaped(val))
+            {
+              sf += '\\';
+            }
             alphabet.getSymbol(sf, val);
           }
         }
-- 
2.43.0


From 724a4d988371a4af0b0c7c92c4c215df10a7f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:12 +0000
Subject: [PATCH 099/111] fix: numbers of the text before a flush were taken
 for those of a segment after it

---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 4148577..0c5ce33 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1215,6 +1215,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
   UString lf;     //lexical form
   UString sf;     //surface form
   size_t last = 0;
+  numbers.clear();
   input_buffer.keep();
 
   while(int32_t val = readTMAnalysis(input))
-- 
2.43.0


From 6301f7ece7282a92b2e1163c9752ee1c677094de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:07 +0000
Subject: [PATCH 100/111] fix: blanks and spaces changed places or got lost
 around segments of the translation memory

---
 lttoolbox/fst_processor.cc | 43 +++++++++++++++++++++++---------------
 lttoolbox/fst_processor.h  |  5 +++++
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 0c5ce33..f312e33 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -280,6 +280,12 @@ FSTProcessor::readTMAnalysis(InputFile& input)
     {
       numbers.push_back(number->second);
     }
+    auto blank = blank_positions.find(input_buffer.getPos());
+    if(blank != blank_positions.end())
+    {
+      blankqueue.push(blank->second);
+      isLastBlankTM = true;
+    }
     return input_buffer.next();
   }
 
@@ -312,6 +318,8 @@ FSTProcessor::readTMAnalysis(InputFile& input)
           blankqueue.push(input.readBlock('[', ']'));
         }
 
+        // it is read again after going back
+        blank_positions[input_buffer.getPos()] = blankqueue.back();
         input_buffer.add(static_cast<int32_t>(' '));
         isLastBlankTM = true;
         return static_cast<int32_t>(' ');
@@ -1215,6 +1223,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
   UString lf;     //lexical form
   UString sf;     //surface form
   size_t last = 0;
+  std::queue<UString> last_blanks; // blanks before last that are not in lf
   numbers.clear();
   input_buffer.keep();
 
@@ -1225,9 +1234,17 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
     {
       if(u_ispunct(val) || (tm_mode == tm_space && u_isspace(val)))
       {
+        // a longer segment may need them again; val doesn't belong to this one
+        std::queue<UString> blanks = blankqueue;
+        last_blanks = {};
+        while(blanks.size() > (isLastBlankTM ? 1 : 0))
+        {
+          last_blanks.push(blanks.front());
+          blanks.pop();
+        }
         lf = current_state.filterFinalsTM(all_finals, alphabet,
                                           escaped_chars,
-                                          blankqueue, numbers).substr(1);
+                                          last_blanks, numbers).substr(1);
         last = input_buffer.getPos();
       }
     }
@@ -1304,20 +1321,14 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
         if(val == 0)
         {
           write(sf, output);
+          blankqueue = {};
           return;
         }
 
         input_buffer.back(1);
         write(sf, output);
 
-        while(blankqueue.size() > 0)
-        {
-          if(blankqueue.size() == 1 && isLastBlankTM)
-          {
-            break;
-          }
-          blankqueue.pop();
-        }
+        blankqueue = {};
 
 /*
         unsigned int limit = sf.find(' ');
@@ -1337,14 +1348,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
         input_buffer.back(1);
         write(sf, output);
 
-        while(blankqueue.size() > 0)
-        {
-          if(blankqueue.size() == 1 && isLastBlankTM)
-          {
-            break;
-          }
-          blankqueue.pop();
-        }
+        blankqueue = {};
 
       }
       else
@@ -1352,6 +1356,10 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
         u_fprintf(output, "[%S]", lf.c_str());
         input_buffer.setPos(last);
         input_buffer.back(1);
+
+        // write the blanks inside it; those after it are read again
+        blankqueue = last_blanks;
+        flushBlanks(output);
       }
 
       current_state = initial_state;
@@ -1359,6 +1367,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
       sf.clear();
       numbers.clear();
       number_positions.erase(number_positions.begin(), number_positions.lower_bound(input_buffer.getPos()));
+      blank_positions.erase(blank_positions.begin(), blank_positions.lower_bound(input_buffer.getPos()));
       input_buffer.keep();
     }
   }
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index 4c8f9a2..5627f10 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -401,6 +401,11 @@ private:
    * The numbers by their position in the input buffer
    */
   std::map<size_t, UString> number_positions;
+
+  /**
+   * The same for blanks.
+   */
+  std::map<size_t, UString> blank_positions;
   int readTMAnalysis(InputFile& input);
 
   unsigned int lastBlank(UStringView str);
-- 
2.43.0


From e25fdb279c2a61d7e5ea96f083c2919f5b60fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:39 +0000
Subject: [PATCH 101/111] fix: a segment found by lt-tmxproc was not translated
 when a longer one was cut off by the end of the input

---
 lttoolbox/fst_processor.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index f312e33..2d77fb8 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1227,10 +1227,16 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
   numbers.clear();
   input_buffer.keep();
 
-  while(int32_t val = readTMAnalysis(input))
+  while(true)
   {
+    int32_t val = readTMAnalysis(input);
+    if(val == 0 && lf.empty())
+    {
+      break;
+    }
+
     // test for final states
-    if(current_state.isFinal(all_finals))
+    if(val != 0 && current_state.isFinal(all_finals))
     {
       if(u_ispunct(val) || (tm_mode == tm_space && u_isspace(val)))
       {
@@ -1254,7 +1260,14 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
       last = input_buffer.getPos();
     }
 
-    current_state.step_case(val, false);
+    if(val == 0)
+    {
+      current_state = State();
+    }
+    else
+    {
+      current_state.step_case(val, false);
+    }
 
     if(current_state.size() != 0)
     {
@@ -1292,7 +1305,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
           u_fputc(val, output);
         }
       }
-      else if(!u_isspace(val) && !u_ispunct(val) &&
+      else if(val != 0 && !u_isspace(val) && !u_ispunct(val) &&
               ((sf.size()-input_buffer.diffPrevPos(last)) > lastBlank(sf) ||
                lf.empty()))
       {
-- 
2.43.0


From 0abea08598d45db0306d0943f2e5cf30429c0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:57 +0000
Subject: [PATCH 102/111] fix: lt-tmxproc gave up at digits other than 0-9

---
 lttoolbox/fst_processor.cc | 44 +++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 2d77fb8..15b56a5 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -296,7 +296,23 @@ FSTProcessor::readTMAnalysis(InputFile& input)
     return 0;
   }
 
-  if(escaped_chars.find(val) != escaped_chars.end() || u_isdigit(val))
+  if(u_isdigit(val))
+  {
+    UString ws;
+    do
+    {
+      ws += val;
+      val = input.get();
+    } while(u_isdigit(val));
+    input.unget(val);
+    // it is read again after going back
+    number_positions[input_buffer.getPos()] = ws;
+    input_buffer.add(alphabet(u"<n>"));
+    numbers.push_back(ws);
+    return alphabet(u"<n>");
+  }
+
+  if(escaped_chars.find(val) != escaped_chars.end())
   {
     switch(val)
     {
@@ -328,32 +344,6 @@ FSTProcessor::readTMAnalysis(InputFile& input)
         val = input.get();
         input_buffer.add(static_cast<int32_t>(val));
         return val;
-      case '0':
-      case '1':
-      case '2':
-      case '3':
-      case '4':
-      case '5':
-      case '6':
-      case '7':
-      case '8':
-      case '9':
-        {
-          UString ws;
-          do
-          {
-            ws += val;
-            val = input.get();
-          } while(u_isdigit(val));
-          input.unget(val);
-          // it is read again after going back
-          number_positions[input_buffer.getPos()] = ws;
-          input_buffer.add(alphabet(u"<n>"));
-          numbers.push_back(ws);
-          return alphabet(u"<n>");
-        }
-        break;
-
       default:
         streamError();
     }
-- 
2.43.0


From a48a67e89f068957c5fa68d0cc269cb2dda6affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:10 +0000
Subject: [PATCH 103/111] fix: options of an earlier call stayed in force in
 the Python binding

---
 lttoolbox/fst_processor.cc | 4 +++-
 python/lttoolbox.i.in      | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 15b56a5..060b02c 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -708,6 +708,7 @@ FSTProcessor::load(FILE *input)
 void
 FSTProcessor::initAnalysis()
 {
+  do_decomposition = false;
   calcInitial();
   classifyFinals();
   all_finals = standard;
@@ -871,8 +872,8 @@ FSTProcessor::initDecompositionSymbols()
 void
 FSTProcessor::initDecomposition()
 {
-  do_decomposition = true;
   initAnalysis();
+  do_decomposition = true;
   initDecompositionSymbols();
 }
 
@@ -1522,6 +1523,7 @@ FSTProcessor::postgeneration(InputFile& input, UFILE *output)
 {
   transliteration_drop_tilde = true;
   transliteration(input, output);
+  transliteration_drop_tilde = false;
 }
 
 void
diff --git a/python/lttoolbox.i.in b/python/lttoolbox.i.in
index fcfd8ef..525fc43 100644
--- a/python/lttoolbox.i.in
+++ b/python/lttoolbox.i.in
@@ -63,6 +63,13 @@ public:
     int c = 0;
     optind = 1;
 	GenerationMode bilmode = gm_unknown;
+    // the options of an earlier call are not those of this one
+    setBiltransSurfaceForms(false);
+    setCaseSensitiveMode(false);
+    setDictionaryCaseMode(false);
+    setDisplayWeightsMode(false);
+    setNullFlush(false);
+    setUseDefaultIgnoredChars(true);
     while (true)
     {
       c = getopt(argc, argv, "abcdeglmnoptwxzCIW");
-- 
2.43.0


From e043f83e8977ce5c5bf37b58e191b9b80796cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:10 +0000
Subject: [PATCH 104/111] fix: the Python binding didn't generate with -b and
 -g

---
 python/lttoolbox.i.in | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/lttoolbox.i.in b/python/lttoolbox.i.in
index 525fc43..5b7f852 100644
--- a/python/lttoolbox.i.in
+++ b/python/lttoolbox.i.in
@@ -63,6 +63,7 @@ public:
     int c = 0;
     optind = 1;
 	GenerationMode bilmode = gm_unknown;
+    bool generate = false;
     // the options of an earlier call are not those of this one
     setBiltransSurfaceForms(false);
     setCaseSensitiveMode(false);
@@ -91,6 +92,9 @@ public:
 		  } else if (cmd == 'g' && c == 'b') {
 			  cmd = c;
 		  }
+          if (c == 'g') {
+			  generate = true;
+		  }
           break;
 	  case 'c':
 		  setCaseSensitiveMode(true);
@@ -139,6 +143,9 @@ public:
     switch(cmd)
     {
 	case 'b':
+		if (generate && bilmode == gm_unknown) {
+			bilmode = gm_bilgen;
+		}
 		initBiltrans();
 		bilingual(input, output, bilmode);
 		break;
-- 
2.43.0


From 4d5e45338245c2b5e2cea1e813ea8c0edaee271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:26 +0000
Subject: [PATCH 105/111] fix: errors ended the Python interpreter instead of
 raising an exception

---
 python/lttoolbox.i.in | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/python/lttoolbox.i.in b/python/lttoolbox.i.in
index 5b7f852..ff3b881 100644
--- a/python/lttoolbox.i.in
+++ b/python/lttoolbox.i.in
@@ -1,5 +1,15 @@
 %module lttoolbox
 
+%include <exception.i>
+
+%exception {
+  try {
+    $action
+  } catch (const std::exception& e) {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
+}
+
 %include <lttoolbox/fst_processor.h>
 %include <lttoolbox/lt_locale.h>
 
@@ -28,6 +38,9 @@
 }
 
 %typemap(freearg) (int argc, char **argv) {
+  for (char **arg = $2; arg != NULL && *arg != NULL; arg++) {
+    free(*arg);
+  }
   free((char *) $2);
 }
 
@@ -40,6 +53,8 @@
 #include <unicode/ustdio.h>
 
 #include <getopt.h>
+#include <stdexcept>
+#include <string>
 
 class FST: public FSTProcessor
 {
@@ -50,15 +65,28 @@ public:
   FST(char *dictionary_path)
   {
     FILE *dictionary = fopen(dictionary_path, "rb");
-    load(dictionary);
+    if (dictionary == NULL) {
+      throw std::runtime_error(std::string("Cannot open file '") + dictionary_path + "'.");
+    }
+    try {
+      load(dictionary);
+    } catch (...) {
+      fclose(dictionary);
+      throw;
+    }
     fclose(dictionary);
   }
 
   void lt_proc(int argc, char **argv, char *input_path, char *output_path)
   {
     InputFile input;
-    input.open(input_path);
+    if (!input.open(input_path)) {
+      throw std::runtime_error(std::string("Cannot open file '") + input_path + "' for reading.");
+    }
     UFILE* output = u_fopen(output_path, "w", NULL, NULL);
+    if (output == NULL) {
+      throw std::runtime_error(std::string("Cannot open file '") + output_path + "' for writing.");
+    }
     int cmd = 0;
     int c = 0;
     optind = 1;
@@ -140,6 +168,7 @@ public:
       }
     }
 
+    try {
     switch(cmd)
     {
 	case 'b':
@@ -181,6 +210,10 @@ public:
         analysis(input, output);
         break;
 	}
+    } catch (...) {
+      u_fclose(output);
+      throw;
+    }
 
     u_fclose(output);
   }
-- 
2.43.0


From 4f2044f4433b37eb51c9cf0c1ecc1d5c1ee4fa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:38 +0000
Subject: [PATCH 106/111] fix: the Python binding used dictionaries that
 lt-proc refuses

---
 python/lttoolbox.i.in | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/python/lttoolbox.i.in b/python/lttoolbox.i.in
index ff3b881..d9ba14b 100644
--- a/python/lttoolbox.i.in
+++ b/python/lttoolbox.i.in
@@ -77,6 +77,13 @@ public:
     fclose(dictionary);
   }
 
+  void checkValidity() const
+  {
+    if (!valid()) {
+      throw std::runtime_error("Invalid dictionary.");
+    }
+  }
+
   void lt_proc(int argc, char **argv, char *input_path, char *output_path)
   {
     InputFile input;
@@ -176,37 +183,44 @@ public:
 			bilmode = gm_bilgen;
 		}
 		initBiltrans();
+		checkValidity();
 		bilingual(input, output, bilmode);
 		break;
 
 	case 'e':
 		initDecomposition();
+		checkValidity();
 		analysis(input, output);
 		break;
 
 	case 'g':
 		initGeneration();
+		checkValidity();
 		generation(input, output, bilmode);
 		break;
 
 	case 'p':
 		initPostgeneration();
+		checkValidity();
 		postgeneration(input, output);
 		break;
 
 	case 't':
 		initPostgeneration();
+		checkValidity();
 		transliteration(input, output);
 		break;
 
 	case 'x':
 		initPostgeneration();
+		checkValidity();
 		intergeneration(input, output);
 		break;
 
 	case 'a':
 	default:
 		initAnalysis();
+		checkValidity();
         analysis(input, output);
         break;
 	}
-- 
2.43.0


From f845cde7a8c55e37e72f0d138444768fca9aead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:43 +0000
Subject: [PATCH 107/111] fix: initialising a processor again doubled its
 initial state

---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 060b02c..468a6c2 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -464,6 +464,7 @@ FSTProcessor::flushBlanks(UFILE *output)
 void
 FSTProcessor::calcInitial()
 {
+  root = Node();
   for(auto& it : transducers) {
     root.addTransition(0, 0, it.second.getInitial(), default_weight);
   }
-- 
2.43.0


From e49d2663048a6d010105a926d124d33937ca5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:46 +0000
Subject: [PATCH 108/111] fix: a copied TransExe had no links, and its final
 states were those of the original

---
 lttoolbox/node.cc      | 12 ++++++++++++
 lttoolbox/node.h       | 11 +++++++++++
 lttoolbox/trans_exe.cc | 13 ++++++++++++-
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/node.cc b/lttoolbox/node.cc
index 1465a47..ff0fa4c 100644
--- a/lttoolbox/node.cc
+++ b/lttoolbox/node.cc
@@ -82,3 +82,15 @@ Node::addTransition(int const i, int const o, Node * const d, double const wt)
   aux.dest = dest;
   aux.out_weight = out_weight;
 }
+
+void
+Node::rebase(Node const *from, Node *to)
+{
+  for(auto& it : transitions)
+  {
+    for(int i = 0; i != it.second.size; i++)
+    {
+      it.second.dest[i] = to + (it.second.dest[i] - from);
+    }
+  }
+}
diff --git a/lttoolbox/node.h b/lttoolbox/node.h
index 34ae538..885963f 100644
--- a/lttoolbox/node.h
+++ b/lttoolbox/node.h
@@ -18,6 +18,7 @@
 #ifndef _NODE_
 #define _NODE_
 
+#include <algorithm>
 #include <cstdlib>
 #include <list>
 #include <map>
@@ -44,6 +45,9 @@ private:
     out_tag = new int[size];
     dest = new Node*[size];
     out_weight = new double[size];
+    std::copy(d.out_tag, d.out_tag + size, out_tag);
+    std::copy(d.dest, d.dest + size, dest);
+    std::copy(d.out_weight, d.out_weight + size, out_weight);
   }
 
   void destroy()
@@ -163,6 +167,13 @@ public:
    * @param w weight value
    */
   void addTransition(int i, int o, Node * const d, double wt);
+
+  /**
+   * Make the links of a copied node lead to the copies of their destinations
+   * @param from where the nodes were copied from
+   * @param to where they were copied to
+   */
+  void rebase(Node const *from, Node *to);
 };
 
 #endif
diff --git a/lttoolbox/trans_exe.cc b/lttoolbox/trans_exe.cc
index 4c08ffa..d555257 100644
--- a/lttoolbox/trans_exe.cc
+++ b/lttoolbox/trans_exe.cc
@@ -53,7 +53,18 @@ TransExe::copy(TransExe const &te)
   initial_id = te.initial_id;
   default_weight = te.default_weight;
   node_list = te.node_list;
-  finals = te.finals;
+  finals.clear();
+
+  // the nodes refer to each other by their addresses
+  Node const *from = te.node_list.data();
+  for(auto& it : node_list)
+  {
+    it.rebase(from, node_list.data());
+  }
+  for(auto& it : te.finals)
+  {
+    finals[node_list.data() + (it.first - from)] = it.second;
+  }
 }
 
 void
-- 
2.43.0


From fe907a04ac20d93813e45e166c531eca272e631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:46 +0000
Subject: [PATCH 109/111] fix: reading a TransExe again added to what it had

---
 lttoolbox/trans_exe.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lttoolbox/trans_exe.cc b/lttoolbox/trans_exe.cc
index d555257..ce9e295 100644
--- a/lttoolbox/trans_exe.cc
+++ b/lttoolbox/trans_exe.cc
@@ -70,6 +70,8 @@ TransExe::copy(TransExe const &te)
 void
 TransExe::destroy()
 {
+  node_list.clear();
+  finals.clear();
 }
 
 #include <iostream>
-- 
2.43.0


From f4bbd53af9c40adf0d098ae3129169ffef515a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:57 +0000
Subject: [PATCH 110/111] fix: TransExe::unifyFinals left the links to the
 other nodes dangling

---
 lttoolbox/trans_exe.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/trans_exe.cc b/lttoolbox/trans_exe.cc
index ce9e295..6a34485 100644
--- a/lttoolbox/trans_exe.cc
+++ b/lttoolbox/trans_exe.cc
@@ -157,6 +157,10 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
 void
 TransExe::unifyFinals()
 {
+  // the nodes refer to each other by their addresses, so they can't be moved alone
+  TransExe old(*this);
+  node_list.reserve(node_list.size()+1);
+  copy(old);
   node_list.resize(node_list.size()+1);
 
   Node *newfinal = &node_list[node_list.size()-1];
-- 
2.43.0


From 997ea928d22061ec199613dbcb81e661343f8e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:07 +0000
Subject: [PATCH 111/111] fix: State::copy used sequences that it had deleted

---
 lttoolbox/state.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 120c6a2..e67a282 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -93,6 +93,7 @@ State::copy(State const &s)
   for (auto& it : sequence_pool) {
     delete it;
   }
+  sequence_pool.clear();
 
   state = s.state;
 
-- 
2.43.0

