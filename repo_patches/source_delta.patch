From ae2266a1d8e8fa521e4f8123ede2ec5c5626148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 01/51] fix: don't index set_mapping_ with eol/bol tokens and
 only prune exact newline clashes

---
 include/lexertl/generator.hpp | 227 +++++++++++-----------------------
 1 file changed, 69 insertions(+), 158 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 0de20b0..287dd84 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -321,195 +321,106 @@ namespace lexertl
             }
         }
 
-        static void prune_NL(typename node_vector::iterator& iter_,
-            typename node_vector::iterator& end_,
-            node_vector& followpos_,
-            const id_type cr_id_, const id_type nl_id_,
-            const index_set_vector& set_mapping_)
+        // Returns true if node_ matches the character with index id_ and
+        // nothing else.
+        static bool only_matches(observer_ptr<const node> node_,
+            const id_type id_, const index_set_vector& set_mapping_)
         {
-            // Search for NL followed by end state
-            auto nl_iter_ = iter_;
-
-            ++nl_iter_;
+            // Note that eol and bol tokens have no entry in set_mapping_
+            if (node_->end_state() || node_->token() >= set_mapping_.size())
+                return false;
 
-            while (nl_iter_ != end_)
-            {
-                node* node_ = *nl_iter_;
+            const auto& set_ = set_mapping_[node_->token()];
 
-                if (node_->end_state())
-                {
-                    ++nl_iter_;
-                    continue;
-                }
+            return set_.size() == 1 && *set_.begin() == id_;
+        }
 
-                if (const auto& cr_set_ =
-                    set_mapping_[node_->token()];
-                    cr_set_.find(cr_id_) != cr_set_.end())
-                {
-                    const auto& cr_followpos_ =
-                        node_->followpos();
+        // Returns true if node_ is NL followed by an end state.
+        static bool is_final_nl(observer_ptr<const node> node_,
+            const id_type nl_id_, const index_set_vector& set_mapping_)
+        {
+            if (!only_matches(node_, nl_id_, set_mapping_))
+                return false;
 
-                    for (auto cr_node_ : cr_followpos_)
-                    {
-                        if (cr_node_->end_state())
-                            continue;
+            for (observer_ptr<const node> nl_node_ : node_->followpos())
+            {
+                if (nl_node_->end_state())
+                    return true;
+            }
 
-                        if (const auto& nl_set_ =
-                            set_mapping_[cr_node_->token()];
-                            nl_set_.find(nl_id_) != nl_set_.end())
-                        {
-                            const auto& nl_followpos_ =
-                                cr_node_->followpos();
-                            bool found_ = false;
-
-                            for (auto nl_node_ : nl_followpos_)
-                            {
-                                found_ = nl_node_->end_state();
-
-                                if (found_)
-                                    break;
-                            }
-
-                            if (found_)
-                            {
-                                // This might be suppressing additional paths
-                                // but we should be erroring out anyway.
-                                nl_iter_ = followpos_.erase(nl_iter_);
-                                end_ = followpos_.end();
-                                continue;
-                            }
-                        }
-                    }
-                }
+            return false;
+        }
 
-                if (nl_iter_ == end_)
-                    break;
+        // Returns true if node_ starts NL or CR NL followed by an end state.
+        static bool is_final_newline(observer_ptr<const node> node_,
+            const id_type cr_id_, const id_type nl_id_,
+            const index_set_vector& set_mapping_)
+        {
+            if (is_final_nl(node_, nl_id_, set_mapping_))
+                return true;
 
-                if (const auto& nl_set_ =
-                    set_mapping_[node_->token()];
-                    nl_set_.find(nl_id_) != nl_set_.end())
+            if (only_matches(node_, cr_id_, set_mapping_))
+            {
+                for (observer_ptr<const node> cr_node_ : node_->followpos())
                 {
-                    const auto& nl_followpos_ =
-                        node_->followpos();
-                    bool found_ = false;
-
-                    for (auto nl_node_ : nl_followpos_)
-                    {
-                        found_ = nl_node_->end_state();
-
-                        if (found_)
-                            break;
-                    }
-
-                    if (found_)
-                    {
-                        // This might be suppressing additional paths
-                        // but we should be erroring out anyway.
-                        nl_iter_ = followpos_.erase(nl_iter_);
-                        end_ = followpos_.end();
-                        continue;
-                    }
+                    if (is_final_nl(cr_node_, nl_id_, set_mapping_))
+                        return true;
                 }
-
-                ++nl_iter_;
             }
+
+            return false;
         }
 
-        static void prune_eol(typename node_vector::iterator& iter_,
+        static void prune_NL(typename node_vector::iterator& iter_,
             typename node_vector::iterator& end_,
             node_vector& followpos_,
             const id_type cr_id_, const id_type nl_id_,
             const index_set_vector& set_mapping_)
         {
-            auto node_ = *iter_;
-            const auto& set_ = set_mapping_[node_->token()];
+            // Search for NL followed by end state
+            auto nl_iter_ = iter_;
 
-            if (set_.find(cr_id_) != set_.end())
-            {
-                const auto& cr_followpos_ = node_->followpos();
-                bool found_ = false;
+            ++nl_iter_;
 
-                for (auto cr_node_ : cr_followpos_)
+            while (nl_iter_ != end_)
+            {
+                if (is_final_newline(*nl_iter_, cr_id_, nl_id_, set_mapping_))
                 {
-                    if (cr_node_->end_state())
-                        continue;
-
-                    const auto& cr_set_ = set_mapping_[cr_node_->token()];
-
-                    if (cr_set_.find(nl_id_) != cr_set_.end())
-                    {
-                        const auto& nl_followpos_ = cr_node_->followpos();
-
-                        found_ = false;
-
-                        for (auto nl_node_ : nl_followpos_)
-                        {
-                            found_ = nl_node_->end_state();
-
-                            if (found_)
-                                break;
-                        }
-
-                        if (found_)
-                        {
-                            // Search for any EOL tokens
-                            auto nl_iter_ = iter_;
-
-                            ++nl_iter_;
-
-                            while (nl_iter_ != end_)
-                            {
-                                node_ = *nl_iter_;
-
-                                if (!node_->end_state() &&
-                                    node_->token() == parser::eol_token())
-                                {
-                                    nl_iter_ = followpos_.erase(nl_iter_);
-                                    end_ = followpos_.end();
-                                    continue;
-                                }
-
-                                ++nl_iter_;
-                            }
-                        }
-                    }
+                    // This might be suppressing additional paths
+                    // but we should be erroring out anyway.
+                    nl_iter_ = followpos_.erase(nl_iter_);
+                    end_ = followpos_.end();
                 }
+                else
+                    ++nl_iter_;
             }
+        }
 
-            if (set_.find(nl_id_) != set_.end())
+        static void prune_eol(typename node_vector::iterator& iter_,
+            typename node_vector::iterator& end_,
+            node_vector& followpos_,
+            const id_type cr_id_, const id_type nl_id_,
+            const index_set_vector& set_mapping_)
+        {
+            if (is_final_newline(*iter_, cr_id_, nl_id_, set_mapping_))
             {
-                const auto& nl_followpos_ = node_->followpos();
-                bool found_ = false;
-
-                for (auto nl_node_ : nl_followpos_)
-                {
-                    found_ = nl_node_->end_state();
+                // Search for any EOL tokens
+                auto nl_iter_ = iter_;
 
-                    if (found_)
-                        break;
-                }
+                ++nl_iter_;
 
-                if (found_)
+                while (nl_iter_ != end_)
                 {
-                    // Search for any EOL tokens
-                    auto nl_iter_ = iter_;
+                    observer_ptr<const node> node_ = *nl_iter_;
 
-                    ++nl_iter_;
-
-                    while (nl_iter_ != end_)
+                    if (!node_->end_state() &&
+                        node_->token() == parser::eol_token())
                     {
-                        node_ = *nl_iter_;
-
-                        if (!node_->end_state() &&
-                            node_->token() == parser::eol_token())
-                        {
-                            nl_iter_ = followpos_.erase(nl_iter_);
-                            end_ = followpos_.end();
-                            continue;
-                        }
-
-                        ++nl_iter_;
+                        nl_iter_ = followpos_.erase(nl_iter_);
+                        end_ = followpos_.end();
                     }
+                    else
+                        ++nl_iter_;
                 }
             }
         }
-- 
2.43.0


From 3f96e61129c8e9561c2fa4ed6ee26ec561cd3d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 02/51] fix: give each state with $ and newline transitions its
 own eol state

---
 include/lexertl/generator.hpp | 122 +++++++++++++++++-----------------
 1 file changed, 60 insertions(+), 62 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 287dd84..ec1468e 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -506,6 +506,24 @@ namespace lexertl
             return std::string();
         }
 
+        // Append a copy of a row and return its index. As the jam state can
+        // hold the bol index, this yields an empty row instead.
+        static id_type clone_row(const std::size_t row_,
+            typename internals::id_type_vector& dfa_,
+            const std::size_t dfa_alphabet_)
+        {
+            const std::size_t size_ = dfa_.size();
+
+            dfa_.resize(size_ + dfa_alphabet_, 0);
+
+            for (std::size_t i_ = 0; row_ != 0 && i_ < dfa_alphabet_; ++i_)
+            {
+                dfa_[size_ + i_] = dfa_[row_ * dfa_alphabet_ + i_];
+            }
+
+            return static_cast<id_type>(size_ / dfa_alphabet_);
+        }
+
         // Uncompressed
         static void fix_clashes(const id_type_set& eol_set_,
             const id_type cr_id_, const id_type nl_id_,
@@ -517,32 +535,32 @@ namespace lexertl
             {
                 observer_ptr<id_type> ptr_ = &dfa_.front() +
                     eol_ * dfa_alphabet_;
-                const id_type eol_state_ = ptr_[*state_index::eol];
                 const id_type cr_state_ =
                     ptr_[cr_id_ + *state_index::transitions];
                 const id_type nl_state_ =
                     ptr_[nl_id_ + *state_index::transitions];
 
-                if (cr_state_)
-                {
-                    ptr_[*state_index::transitions + cr_id_] = 0;
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
+                if (cr_state_ == 0 && nl_state_ == 0)
+                    continue;
 
-                    if (ptr_[*state_index::transitions + cr_id_] == 0)
-                    {
-                        ptr_[*state_index::transitions + cr_id_] = cr_state_;
-                    }
-                }
+                ptr_[*state_index::transitions + cr_id_] = 0;
+                ptr_[*state_index::transitions + nl_id_] = 0;
+
+                // Other states can share this eol state, so use a copy
+                const id_type eol_state_ = clone_row(ptr_[*state_index::eol],
+                    dfa_, dfa_alphabet_);
+
+                dfa_[eol_ * dfa_alphabet_ + *state_index::eol] = eol_state_;
+                ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
 
-                if (nl_state_)
+                if (ptr_[*state_index::transitions + cr_id_] == 0)
                 {
-                    ptr_[*state_index::transitions + nl_id_] = 0;
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
+                    ptr_[*state_index::transitions + cr_id_] = cr_state_;
+                }
 
-                    if (ptr_[*state_index::transitions + nl_id_] == 0)
-                    {
-                        ptr_[*state_index::transitions + nl_id_] = nl_state_;
-                    }
+                if (ptr_[*state_index::transitions + nl_id_] == 0)
+                {
+                    ptr_[*state_index::transitions + nl_id_] = nl_state_;
                 }
             }
         }
@@ -553,71 +571,51 @@ namespace lexertl
             typename internals::id_type_vector& dfa_,
             const std::size_t dfa_alphabet_, const std::true_type&)
         {
-            std::size_t i_ = 0;
-
             for (const auto& eol_ : eol_set_)
             {
                 observer_ptr<id_type> ptr_ = &dfa_.front() +
                     eol_ * dfa_alphabet_;
-                const id_type eol_state_ = ptr_[*state_index::eol];
-                id_type cr_state_ = 0;
-                id_type nl_state_ = 0;
 
-                for (; i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
+                for (std::size_t i_ = 0; i_ <
+                    (sm_traits::char_24_bit ? 2 : 1); ++i_)
                 {
                     ptr_ = &dfa_.front() +
                         ptr_[*state_index::transitions + zero_id_] *
                         dfa_alphabet_;
                 }
 
-                cr_state_ = ptr_[*state_index::transitions + cr_id_];
-
-                if (cr_state_)
-                {
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
+                const id_type cr_state_ =
+                    ptr_[*state_index::transitions + cr_id_];
+                const id_type nl_state_ =
+                    ptr_[*state_index::transitions + nl_id_];
 
-                    if (ptr_[*state_index::transitions + zero_id_] != 0)
-                        continue;
+                if (cr_state_ == 0 && nl_state_ == 0)
+                    continue;
 
-                    ptr_[*state_index::transitions + zero_id_] =
-                        static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                    dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
+                // Other states can share this eol state, so use a copy
+                std::size_t idx_ = eol_ * dfa_alphabet_ + *state_index::eol;
 
-                    for (i_ = 0; i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
-                    {
-                        ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                        ptr_[*state_index::transitions + zero_id_] =
-                            static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                        dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-                    }
+                for (std::size_t i_ = 0; i_ <
+                    (sm_traits::char_24_bit ? 3 : 2); ++i_)
+                {
+                    const id_type row_ = clone_row(dfa_[idx_], dfa_,
+                        dfa_alphabet_);
 
-                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                    ptr_[*state_index::transitions + cr_id_] = cr_state_;
+                    dfa_[idx_] = row_;
+                    idx_ = row_ * dfa_alphabet_ +
+                        *state_index::transitions + zero_id_;
                 }
 
-                nl_state_ = ptr_[*state_index::transitions + nl_id_];
+                ptr_ = &dfa_.front() + (idx_ - zero_id_);
 
-                if (nl_state_)
+                if (ptr_[cr_id_] == 0)
                 {
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + zero_id_] != 0)
-                        continue;
-
-                    ptr_[*state_index::transitions + zero_id_] =
-                        static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                    dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-
-                    for (i_ = 0; i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
-                    {
-                        ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                        ptr_[*state_index::transitions + zero_id_] =
-                            static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                        dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-                    }
+                    ptr_[cr_id_] = cr_state_;
+                }
 
-                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                    ptr_[*state_index::transitions + nl_id_] = nl_state_;
+                if (ptr_[nl_id_] == 0)
+                {
+                    ptr_[nl_id_] = nl_state_;
                 }
             }
         }
-- 
2.43.0


From 3b92f56dc4eed64729c7613079792c60f4cefbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 03/51] fix: let the other alternatives of ^a|b match at the
 start of a line

---
 include/lexertl/generator.hpp     | 4 +++-
 include/lexertl/parser/parser.hpp | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index ec1468e..c63da70 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -433,7 +433,9 @@ namespace lexertl
             {
                 if (i_ == parser::bol_token())
                 {
-                    dfa_.front() = transition_;
+                    // Only the start state can be at the start of a line
+                    if (index_ == 0)
+                        dfa_.front() = transition_;
                 }
                 else if (i_ == parser::eol_token())
                 {
diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 127f0e9..7af9f97 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -933,14 +933,15 @@ namespace lexertl::detail
         void fixup_bol(observer_ptr<node>& root_)const
         {
             const auto& first_ = root_->firstpos();
-            bool found_ = false;
+            bool found_ = true;
 
+            // Every alternative needs a bol (e.g. ^a|b)
             for (observer_ptr<const node> node_ : first_)
             {
                 found_ = !node_->end_state() && node_->token() ==
                     bol_token();
 
-                if (found_) break;
+                if (!found_) break;
             }
 
             if (!found_)
-- 
2.43.0


From 068e2c32e15bf040e6e53a4e957efded69b3b5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 04/51] fix: record ^ of a split non-greedy rule when it is
 pushed with a state

---
 include/lexertl/rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index b0a5749..b604f79 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -1202,7 +1202,7 @@ namespace lexertl
 
                 narrow(regex_.c_str(), ss_);
 
-                if (tokens_vec_.back()[1]._type == detail::token_type::BOL)
+                if (tokens_vec_.front()[1]._type == detail::token_type::BOL)
                 {
                     _features[curr_] |= *feature_bit::bol;
                 }
-- 
2.43.0


From ecc2f846ab4c6881cbecc21ba5d7cf99ea1d8605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 05/51] fix: don't mistake the bytes of a wide character for a
 newline

---
 include/lexertl/generator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index c63da70..189b136 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -298,6 +298,10 @@ namespace lexertl
             const id_type cr_id_, const id_type nl_id_,
             const index_set_vector& set_mapping_)
         {
+            // Single bytes cannot be told to be a newline when compressed
+            if (sm_traits::compressed)
+                return;
+
             auto iter_ = followpos_.begin();
             auto end_ = followpos_.end();
 
-- 
2.43.0


From 64e05cf31be974268758f40f2db6dba09e1a9d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 06/51] fix: always have a charset for the leading zero byte of
 a wide newline

---
 include/lexertl/parser/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 7af9f97..d0b9024 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -420,6 +420,12 @@ namespace lexertl::detail
                 nl_id_ = temp_nl_id_;
             }
 
+            if (sm_traits::compressed)
+            {
+                // The generator looks this up
+                lookup(string_token(0, 0));
+            }
+
             // store charset
             _node_ptr_vector.push_back(std::make_unique<leaf_node>
                 (eol_token(), greedy_repeat::yes));
-- 
2.43.0


From 48943d8cfa67618a2783d47d6273094b7b9d24b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 07/51] fix: keep id, push and pop when minimising a char state
 machine

---
 include/lexertl/state_machine.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/state_machine.hpp b/include/lexertl/state_machine.hpp
index 1c1ffa5..c8d0db5 100644
--- a/include/lexertl/state_machine.hpp
+++ b/include/lexertl/state_machine.hpp
@@ -473,8 +473,10 @@ namespace lexertl
                     }
 
                     new_ptr_->_end_state = ptr_->_end_state;
-                    new_ptr_->_id = ptr_->_end_state;
+                    new_ptr_->_push_pop_dfa = ptr_->_push_pop_dfa;
+                    new_ptr_->_id = ptr_->_id;
                     new_ptr_->_user_id = ptr_->_user_id;
+                    new_ptr_->_push_dfa = ptr_->_push_dfa;
                     new_ptr_->_next_dfa = ptr_->_next_dfa;
 
                     if (ptr_->_eol_index != npos())
-- 
2.43.0


From 821f8ebd356b1bb4cc4962e125b12c3e1f9fb49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 08/51] fix: slice the middle of a 24-bit range by its most
 significant byte

---
 include/lexertl/parser/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index d0b9024..73fcc46 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -564,7 +564,7 @@ namespace lexertl::detail
 
                 if (second_msb_ > first_msb_ + 1)
                 {
-                    insert_range(first_mid_ + 1, second_mid_ - 1,
+                    insert_range(first_msb_ + 1, second_msb_ - 1,
                         0, 0xff,
                         0, 0xff, data_);
                 }
-- 
2.43.0


From 0066eb08bf2ffc4a8900b53c41d534429f44b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 09/51] fix: save and load machines with 8-bit ids or wide
 characters

---
 include/lexertl/serialise.hpp | 49 +++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/include/lexertl/serialise.hpp b/include/lexertl/serialise.hpp
index 10ebb17..0679c56 100644
--- a/include/lexertl/serialise.hpp
+++ b/include/lexertl/serialise.hpp
@@ -18,18 +18,20 @@ namespace lexertl
 {
     namespace detail
     {
-        template<typename char_type, typename id_type, class stream>
+        template<typename id_type, class stream>
         void output_vec(const std::vector<id_type>& vec_, stream& stream_)
         {
-            std::basic_ostringstream<char_type> ss_;
-            std::basic_string<char_type> str_;
+            using stream_char_type = typename stream::char_type;
+            std::basic_ostringstream<stream_char_type> ss_;
+            std::basic_string<stream_char_type> str_;
             std::size_t line_len_ = 0;
 
             stream_ << vec_.size() << '\n';
 
             for (const id_type l_ : vec_)
             {
-                ss_ << l_;
+                // Never output an 8 bit id as a character
+                ss_ << static_cast<std::size_t>(l_);
                 str_ = ss_.str();
 
                 if (line_len_ + str_.size() + 1 > 80)
@@ -43,13 +45,22 @@ namespace lexertl
                     line_len_ += str_.size() + 1;
                 }
 
-                ss_.str("");
+                ss_.str(std::basic_string<stream_char_type>());
             }
 
             stream_ << '\n';
         }
 
-        template<typename char_type, class stream, typename id_type>
+        template<class stream, typename id_type>
+        void input_num(stream& stream_, id_type& id_)
+        {
+            std::size_t num_ = 0;
+
+            stream_ >> num_;
+            id_ = static_cast<id_type>(num_);
+        }
+
+        template<class stream, typename id_type>
         void input_vec(stream& stream_, std::vector<id_type>& vec_)
         {
             std::size_t num_ = 0;
@@ -59,10 +70,10 @@ namespace lexertl
 
             for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
             {
-                std::size_t id_ = 0;
+                id_type id_ = 0;
 
-                stream_ >> id_;
-                vec_.push_back(static_cast<id_type>(id_));
+                input_num(stream_, id_);
+                vec_.push_back(id_);
             }
         }
     }
@@ -78,21 +89,21 @@ namespace lexertl
         stream_ << 1 << '\n';
         stream_ << sizeof(char_type) << '\n';
         stream_ << sizeof(id_type) << '\n';
-        stream_ << internals_._eoi << '\n';
+        stream_ << static_cast<std::size_t>(internals_._eoi) << '\n';
         stream_ << internals_._lookup.size() << '\n';
 
         for (const auto& vec_ : internals_._lookup)
         {
-            detail::output_vec<char_type>(vec_, stream_);
+            detail::output_vec(vec_, stream_);
         }
 
-        detail::output_vec<char_type>(internals_._dfa_alphabet, stream_);
-        stream_ << internals_._features << '\n';
+        detail::output_vec(internals_._dfa_alphabet, stream_);
+        stream_ << static_cast<std::size_t>(internals_._features) << '\n';
         stream_ << internals_._dfa.size() << '\n';
 
         for (const auto& vec_ : internals_._dfa)
         {
-            detail::output_vec<char_type>(vec_, stream_);
+            detail::output_vec(vec_, stream_);
         }
     }
 
@@ -118,25 +129,25 @@ namespace lexertl
         if (num_ != sizeof(id_type))
             throw runtime_error("id_type mismatch in lexertl::load().");
 
-        stream_ >> internals_._eoi;
+        detail::input_num(stream_, internals_._eoi);
         stream_ >> num_;
         internals_._lookup.reserve(num_);
 
         for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
         {
             internals_._lookup.emplace_back();
-            detail::input_vec<char_type>(stream_, internals_._lookup.back());
+            detail::input_vec(stream_, internals_._lookup.back());
         }
 
-        detail::input_vec<char_type>(stream_, internals_._dfa_alphabet);
-        stream_ >> internals_._features;
+        detail::input_vec(stream_, internals_._dfa_alphabet);
+        detail::input_num(stream_, internals_._features);
         stream_ >> num_;
         internals_._dfa.reserve(num_);
 
         for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
         {
             internals_._dfa.emplace_back();
-            detail::input_vec<char_type>(stream_, internals_._dfa.back());
+            detail::input_vec(stream_, internals_._dfa.back());
         }
     }
 }
-- 
2.43.0


From f3dcf228691cacd959a0651e6a681e3bac191be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 10/51] fix: treat carriage return as end of line in generated
 code

---
 include/lexertl/generate_cpp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index b545822..d3ae161 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -286,7 +286,8 @@ namespace lexertl
                 }
 
                 os_ << ";\n\n";
-                os_ << "        if (EOL_state_ && *curr_ == '\\n')\n";
+                os_ << "        if (EOL_state_ && (*curr_ == '\\r' || "
+                    "*curr_ == '\\n'))\n";
                 os_ << "        {\n";
                 os_ << "            ptr_ = ";
 
-- 
2.43.0


From 21af83dc854f22d7f2da89f4609bffb7c6811f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 11/51] fix: don't consume the character that ends a match in
 generated code

---
 include/lexertl/generate_cpp.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index d3ae161..a612494 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -947,7 +947,7 @@ namespace lexertl
             std::ostream& os_, const std::false_type&)
         {
             output_tabs(additional_tabs_, os_);
-            os_ << "        const char_type prev_char_ = *curr_++;\n";
+            os_ << "        const char_type prev_char_ = *curr_;\n";
             output_tabs(additional_tabs_, os_);
             os_ << "        const ";
 
@@ -1028,6 +1028,8 @@ namespace lexertl
             }
 
             os_ << ";\n";
+            output_tabs(additional_tabs_, os_);
+            os_ << "        ++curr_;\n";
         }
 
         template<typename id_type>
@@ -1044,7 +1046,7 @@ namespace lexertl
             output_tabs(additional_tabs_, os_);
             os_ << "        const std::size_t shift_[] = {0, 8, 16};\n";
             output_tabs(additional_tabs_, os_);
-            os_ << "        char_type prev_char_ = *curr_++;\n\n";
+            os_ << "        const char_type prev_char_ = *curr_;\n\n";
 
             if (features_ & *feature_bit::bol)
             {
@@ -1117,7 +1119,9 @@ namespace lexertl
 
             os_ << ";\n";
             output_tabs(additional_tabs_, os_);
-            os_ << "        }\n";
+            os_ << "        }\n\n";
+            output_tabs(additional_tabs_, os_);
+            os_ << "        ++curr_;\n";
         }
 
         static void output_quit(std::ostream&, const std::false_type&)
-- 
2.43.0


From efde43a849b9479b83d8f17ca1e33a4d56b91d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 12/51] fix: output bol and eol rows as pointers in generated
 code

---
 include/lexertl/generate_cpp.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index a612494..a5f9ea4 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -861,7 +861,7 @@ namespace lexertl
             {
                 bool zero_ = *ptr_ == 0;
 
-                if (first_)
+                if (first_ && !zero_)
                 {
                     // We want numbers regardless of id_type.
                     os_ << dfa_name_ << " + 0x" << std::hex <<
@@ -886,6 +886,13 @@ namespace lexertl
                     os_ << ", ";
                     zero_ = *ptr_ == 0;
 
+                    if (id_index_ == *state_index::eol && !zero_)
+                    {
+                        os_ << dfa_name_ + " + 0x" << std::hex <<
+                            static_cast<std::size_t>(*ptr_) * dfa_alphabet_;
+                        continue;
+                    }
+
                     if (!zero_)
                     {
                         os_ << "reinterpret_cast<const void*>(";
-- 
2.43.0


From 20e5a9abea7d8b6827709b3db08898aa0c7ceb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 13/51] fix: generated code for a recursive machine with one
 state compiles

---
 include/lexertl/generate_cpp.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index a5f9ea4..e149bb5 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -596,8 +596,13 @@ namespace lexertl
             {
                 os_ << "        if (pop_)\n";
                 os_ << "        {\n";
-                os_ << "            start_state_ =  results_."
-                    "stack.top().first;\n";
+
+                if (internals_._dfa.size() > 1)
+                {
+                    os_ << "            start_state_ =  results_."
+                        "stack.top().first;\n";
+                }
+
                 os_ << "            results_.stack.pop();\n";
                 os_ << "        }\n";
                 os_ << "        else if (push_dfa_ != results_.npos())\n";
-- 
2.43.0


From 1563136c533186093e062d96dd3eeea99c1145ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 14/51] fix: name the tables of 10 or more lexer states
 consistently in generated code

---
 include/lexertl/generate_cpp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index e149bb5..77e3a0d 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -808,7 +808,7 @@ namespace lexertl
 
                     ss_ << dfa_;
                     dfa_name_ += ss_.str();
-                    os_ << dfa_;
+                    os_ << ss_.str();
                 }
 
                 dfa_name_ += '_';
@@ -843,7 +843,7 @@ namespace lexertl
                     os_ << "id_type";
                 }
 
-                os_ << "* dfas_[] = {dfa0_";
+                os_ << "* dfas_[] = {dfa0_" << std::dec;
 
                 for (std::size_t col_ = 1; col_ < dfas_; ++col_)
                 {
-- 
2.43.0


From 34751fa570930dc869af2f9eb314c2c3b42b7776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 15/51] fix: throw on stack underflow in generated code

---
 include/lexertl/generate_cpp.hpp  | 3 +++
 include/lexertl/match_results.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 77e3a0d..0ed7a02 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -596,6 +596,9 @@ namespace lexertl
             {
                 os_ << "        if (pop_)\n";
                 os_ << "        {\n";
+                os_ << "            if (results_.stack.empty())\n";
+                os_ << "                throw lexertl::runtime_error"
+                    "(\"Stack underflow.\");\n\n";
 
                 if (internals_._dfa.size() > 1)
                 {
diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 50e519a..20a66e1 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -9,6 +9,7 @@
 #include "char_traits.hpp"
 #include "enum_operator.hpp"
 #include "enums.hpp"
+#include "runtime_error.hpp"
 
 #include <cstdint>
 #include <iterator>
-- 
2.43.0


From 98d0d7b0b7767270c350fdd73d249288daff07ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 16/51] fix: reject hex escapes that overflow

---
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index c6b9b77..8f812a6 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -1324,6 +1324,10 @@ namespace lexertl::detail
 
             do
             {
+                // Don't overflow (already too big for any char type)
+                if (hex_ > ~static_cast<std::size_t>(0) >> 4)
+                    hex_ = ~static_cast<std::size_t>(0) >> 4;
+
                 hex_ *= 16;
 
                 if (ch_ >= '0' && ch_ <= '9')
-- 
2.43.0


From 2ba794f19b8449225695b39a0861b80496a67077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 17/51] fix: (?s:...) also turns off dot_not_cr_lf

---
 include/lexertl/parser/tokeniser/re_tokeniser.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index ddc855b..38f2dba 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -395,11 +395,8 @@ namespace lexertl::detail
                         else
                         {
                             state_._flags = state_._flags &
-#ifdef _WIN32
+                                ~*regex_flags::dot_not_newline &
                                 ~*regex_flags::dot_not_cr_lf;
-#else
-                                ~*regex_flags::dot_not_newline;
-#endif
                         }
 
                         negate_ = false;
-- 
2.43.0


From ce837b7cc292ff97d22cf2649a75896d585d54ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 18/51] fix: reject rules that match only the empty text before
 a line end

---
 include/lexertl/generator.hpp | 57 ++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 189b136..7d8d81f 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -458,25 +458,60 @@ namespace lexertl
         {
             if ((rules_.flags() & *regex_flags::match_zero_len) == 0)
             {
-                const auto& firstpos_ = root_->firstpos();
-
-                for (observer_ptr<const node> node_ : firstpos_)
+                for (observer_ptr<const node> node_ : root_->firstpos())
                 {
+                    check_zero_len(rules_, node_);
+
                     if (node_->end_state())
-                    {
-                        std::ostringstream ss_;
+                        continue;
 
-                        ss_ << "The following regex can match zero chars: " <<
-                            regex_from_idx(node_->unique_id() - 1,
-                                rules_.regex_strings()) <<
-                            "\n(Use regex_flags::match_zero_len "
-                            "to suppress this error.)";
-                        throw runtime_error(ss_.str());
+                    // Anchors do not consume any characters
+                    if (node_->token() == parser::eol_token())
+                    {
+                        for (observer_ptr<const node> end_ :
+                            node_->followpos())
+                        {
+                            check_zero_len(rules_, end_);
+                        }
+                    }
+                    else if (node_->token() == parser::bol_token())
+                    {
+                        for (observer_ptr<const node> eol_ :
+                            node_->followpos())
+                        {
+                            if (eol_->end_state() ||
+                                eol_->token() != parser::eol_token())
+                            {
+                                continue;
+                            }
+
+                            for (observer_ptr<const node> end_ :
+                                eol_->followpos())
+                            {
+                                check_zero_len(rules_, end_);
+                            }
+                        }
                     }
                 }
             }
         }
 
+        static void check_zero_len(const rules& rules_,
+            observer_ptr<const node> node_)
+        {
+            if (node_->end_state())
+            {
+                std::ostringstream ss_;
+
+                ss_ << "The following regex can match zero chars: " <<
+                    regex_from_idx(node_->unique_id() - 1,
+                        rules_.regex_strings()) <<
+                    "\n(Use regex_flags::match_zero_len "
+                    "to suppress this error.)";
+                throw runtime_error(ss_.str());
+            }
+        }
+
         static void check_suppressed(const rules& rules_,
             const id_type unique_id_, std::set<id_type>& used_ids_)
         {
-- 
2.43.0


From 6ef8f4cc947a1a77c74a4990e11bc4b336a3cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 19/51] fix: reject repeat counts that overflow

---
 .../lexertl/parser/tokeniser/re_tokeniser.hpp | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index 38f2dba..f5fc634 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -13,6 +13,7 @@
 #include "../../runtime_error.hpp"
 #include "../../string_token.hpp"
 
+#include <cstddef>
 #include <cstring>
 #include <sstream>
 
@@ -560,8 +561,7 @@ namespace lexertl::detail
 
             while (!eos_ && ch_ >= '0' && ch_ <= '9')
             {
-                min_ *= 10;
-                min_ += static_cast<std::size_t>(ch_) - '0';
+                add_digit(min_, ch_, state_);
                 token_._extra += ch_;
                 eos_ = state_.next(ch_);
             }
@@ -627,8 +627,7 @@ namespace lexertl::detail
 
                     do
                     {
-                        max_ *= 10;
-                        max_ += static_cast<std::size_t>(ch_) - '0';
+                        add_digit(max_, ch_, state_);
                         token_._extra += ch_;
                         eos_ = state_.next(ch_);
                     } while (!eos_ && ch_ >= '0' && ch_ <= '9');
@@ -732,6 +731,24 @@ namespace lexertl::detail
             }
         }
 
+        static void add_digit(std::size_t& number_, const rules_char_type ch_,
+            state& state_)
+        {
+            const std::size_t digit_ = static_cast<std::size_t>(ch_) - '0';
+
+            if (number_ > ((~static_cast<std::size_t>(0)) - digit_) / 10)
+            {
+                std::ostringstream ss_;
+
+                ss_ << "Repeat count too big preceding index " <<
+                    state_.index();
+                state_.error(ss_);
+                throw runtime_error(ss_.str());
+            }
+
+            number_ = number_ * 10 + digit_;
+        }
+
         static void macro(state& state_, re_token& token_)
         {
             rules_char_type ch_ = 0;
-- 
2.43.0


From 7b0c903abd1e869a7c4697db90de6ff5ba6d5340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 20/51] fix: report a ? that follows a repeat as a syntax error

---
 include/lexertl/parser/tokeniser/re_token.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index 53a208b..deacf28 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -76,13 +76,13 @@ namespace lexertl::detail
                 /*MACRO*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
                 /*  (  */  ' ', '=', '<', '<', '<', '<', '<', ' ', ' ', '<', '<', '<', '<', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
                 /*  )  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
-                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* ??  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* *?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* +?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* n,m?*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* END */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' '
             };
-- 
2.43.0


From a0fdaa88a54c0324a6ae86d6f95485cf78595f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:37 +0000
Subject: [PATCH 21/51] fix: reject {-} or {+} directly followed by another one

---
 include/lexertl/rules.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index b604f79..d7e25b8 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -800,6 +800,27 @@ namespace lexertl
             const token& rhs_, const re_state& state_, string& macro_,
             rules_char_type& diff_)
         {
+            if (diff_)
+            {
+                std::ostringstream ss_;
+
+                ss_ << "CHARSET must follow {-} or {+} at index " <<
+                    state_.index() - 1 << " in ";
+
+                if (name_ != nullptr)
+                {
+                    ss_ << "macro ";
+                    narrow(name_, ss_);
+                }
+                else
+                {
+                    ss_ << "rule id " << state_._id;
+                }
+
+                ss_ << '.';
+                throw runtime_error(ss_.str());
+            }
+
             if (!macro_.empty())
             {
                 auto iter_ = _macro_map.find(macro_);
-- 
2.43.0


From a25b02e07782c3cba6add4d732b3334e8ccf85f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:38 +0000
Subject: [PATCH 22/51] fix: end a non-greedy rule at its first match and leave
 other rules alone

---
 include/lexertl/generator.hpp             | 38 +++++++++++++++++++++--
 include/lexertl/parser/parser.hpp         | 19 ++++++++++++
 include/lexertl/parser/tree/leaf_node.hpp | 12 +++++++
 include/lexertl/parser/tree/node.hpp      |  5 +++
 include/lexertl/partition/equivset.hpp    |  7 +----
 5 files changed, 73 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 7d8d81f..5f015d7 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -250,8 +250,8 @@ namespace lexertl
                 equivset_list equiv_list_;
 
                 // Intersect charsets
-                build_equiv_list(*seen_vectors_[index_], set_mapping_,
-                    equiv_list_, is_dfa());
+                build_equiv_list(live_nodes(*seen_vectors_[index_]),
+                    set_mapping_, equiv_list_, is_dfa());
 
                 for (auto& equivset_ : equiv_list_)
                 {
@@ -288,6 +288,40 @@ namespace lexertl
             append_dfa(charset_list_, internals_, sm_, dfa_index_, lookup());
         }
 
+        // A non-greedy rule that has matched goes no further, unless it has an
+        // explicit greedy repeat. The other rules are not affected.
+        static node_vector live_nodes(const node_vector& vector_)
+        {
+            std::set<id_type> matched_;
+            node_vector ret_;
+
+            for (observer_ptr<const node> node_ : vector_)
+            {
+                if (node_->end_state() && node_->greedy() == greedy_repeat::no)
+                    matched_.insert(node_->unique_id());
+            }
+
+            for (observer_ptr<const node> node_ : vector_)
+            {
+                if (!node_->end_state() &&
+                    node_->greedy() == greedy_repeat::hard)
+                {
+                    matched_.erase(node_->unique_id());
+                }
+            }
+
+            for (observer_ptr<node> node_ : vector_)
+            {
+                if (node_->end_state() || matched_.find(node_->unique_id()) ==
+                    matched_.end())
+                {
+                    ret_.push_back(node_);
+                }
+            }
+
+            return ret_;
+        }
+
         // Removing clashes will cause an error about rules that cannot match,
         // unless this has been suppressed (bad idea).
         // Because of this we don't worry about end_states that are part of a
diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 73fcc46..90bf23e 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -100,6 +100,7 @@ namespace lexertl::detail
             auto end_ = regex_.cend();
             observer_ptr<node> root_ = nullptr;
             observer_ptr<token> lhs_token_ = nullptr;
+            const std::size_t first_node_ = _node_ptr_vector.size();
             // There cannot be less than 2 tokens
             auto rhs_token_ = std::make_unique<token>(*iter_++);
             char action_ = 0;
@@ -150,6 +151,24 @@ namespace lexertl::detail
                         token_._type == token_type::AREPEATN;
                 }) != regex_.cend();
 
+            if (non_greedy_)
+            {
+                // Once the rule has matched, only an explicit greedy repeat
+                // can extend the match (see also
+                // generator::live_nodes()).
+                for (std::size_t idx_ = first_node_,
+                    size_ = _node_ptr_vector.size(); idx_ < size_; ++idx_)
+                {
+                    observer_ptr<node> node_ = _node_ptr_vector[idx_].get();
+
+                    if (node_->what_type() == node::node_type::LEAF)
+                    {
+                        node_->greedy(greedy_repeat::no);
+                        node_->unique_id(unique_id_);
+                    }
+                }
+            }
+
             _node_ptr_vector.push_back(std::make_unique<end_node>
                 (id_, user_id_, unique_id_, next_dfa_, push_dfa_, pop_dfa_,
                     non_greedy_ ? greedy_repeat::no : greedy_repeat::yes));
diff --git a/include/lexertl/parser/tree/leaf_node.hpp b/include/lexertl/parser/tree/leaf_node.hpp
index 0dd40d3..e8b0f51 100644
--- a/include/lexertl/parser/tree/leaf_node.hpp
+++ b/include/lexertl/parser/tree/leaf_node.hpp
@@ -71,6 +71,17 @@ namespace lexertl::detail
             return _greedy;
         }
 
+        // Only set for the leaves of a non-greedy rule
+        void unique_id(const id_type unique_id_) override
+        {
+            _unique_id = unique_id_;
+        }
+
+        id_type unique_id() const override
+        {
+            return _unique_id;
+        }
+
         const node_vector& followpos() const override
         {
             return _followpos;
@@ -84,6 +95,7 @@ namespace lexertl::detail
     private:
         id_type _token;
         greedy_repeat _greedy;
+        id_type _unique_id = 0;
         node_vector _followpos;
 
         void copy_node(node_ptr_vector& node_ptr_vector_,
diff --git a/include/lexertl/parser/tree/node.hpp b/include/lexertl/parser/tree/node.hpp
index ae68c1f..da1dae2 100644
--- a/include/lexertl/parser/tree/node.hpp
+++ b/include/lexertl/parser/tree/node.hpp
@@ -156,6 +156,11 @@ namespace lexertl::detail
 #endif
         }
 
+        virtual void unique_id(const id_type /*unique_id_*/)
+        {
+            throw runtime_error("Internal error node::unique_id(id).");
+        }
+
         virtual id_type next_dfa() const
         {
             throw runtime_error("Internal error node::next_dfa().");
diff --git a/include/lexertl/partition/equivset.hpp b/include/lexertl/partition/equivset.hpp
index c0b9f96..68a3e17 100644
--- a/include/lexertl/partition/equivset.hpp
+++ b/include/lexertl/partition/equivset.hpp
@@ -89,12 +89,7 @@ namespace lexertl::detail
             basic_equivset& overlap_) const
         {
             if (_greedy == greedy_repeat::no)
-            {
-                if (rhs_._greedy == greedy_repeat::hard)
-                    overlap_._greedy = rhs_._greedy;
-                else
-                    overlap_._greedy = _greedy;
-            }
+                overlap_._greedy = rhs_._greedy;
             else
                 overlap_._greedy = _greedy;
         }
-- 
2.43.0


From aa83572cde90c92b45cd2e4d9258e0b1cc28fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:54 +0000
Subject: [PATCH 23/51] fix: only add a macro once its definition is known to
 be valid

---
 include/lexertl/rules.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index d7e25b8..13a28a9 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -251,12 +251,11 @@ namespace lexertl
 
             if (iter_ == _macro_map.end())
             {
-                auto pair_ =
-                    _macro_map.insert(macro_pair(name_, token_vector()));
                 auto tokens_vec_ = tokenise(regex_, npos(), name_);
 
                 // There can only be one token_vector for a macro
-                pair_.first->second = std::move(tokens_vec_.back());
+                _macro_map.insert(macro_pair(name_,
+                    std::move(tokens_vec_.back())));
             }
             else
             {
-- 
2.43.0


From d951bec950b277f45e968b8a871a45d529b65010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:53 +0000
Subject: [PATCH 24/51] fix: include the inside of First/Last ranges in the
 Unicode categories

---
 gen_unicode_hpp/main.cpp                     | 14 ++++++-
 include/lexertl/parser/tokeniser/unicode.hpp | 40 ++++++++++----------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/gen_unicode_hpp/main.cpp b/gen_unicode_hpp/main.cpp
index e35bfaa..d9b82dc 100644
--- a/gen_unicode_hpp/main.cpp
+++ b/gen_unicode_hpp/main.cpp
@@ -16,9 +16,11 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 	const char* start_ = mf_.data();
 	const char* end_ = start_ + mf_.size();
 	lexertl::cmatch results_(start_, end_);
-	enum { eNumber = 1, eName };
+	enum { eNumber = 1, eLast, eName };
 
+	std::size_t first_ = 0;
 	std::size_t num_ = 0;
+	bool range_ = false;
 	using string_token = lexertl::basic_string_token<std::size_t>;
 	using map = std::map<std::string, string_token>;
 	map map_;
@@ -28,6 +30,7 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 	rules_.push_state("FINISH");
 
 	rules_.push("INITIAL", "^[A-F0-9]+", eNumber, "LONG_NAME");
+	rules_.push("LONG_NAME", ";<[^;]+, Last>;", eLast, "SHORT_NAME");
 	rules_.push("LONG_NAME", ";[^;]+;", lexertl::rules::skip(), "SHORT_NAME");
 	rules_.push("SHORT_NAME", "[A-Z][a-z]?", eName, "FINISH");
 	rules_.push("FINISH", ".*\n", lexertl::rules::skip(), "INITIAL");
@@ -42,14 +45,21 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 			std::stringstream ss_;
 
 			ss_ << results_.str();
+			first_ = num_;
 			ss_ >> std::hex >> num_;
+			range_ = false;
+		}
+		else if (results_.id == eLast)
+		{
+			// The previous line was the first of a range
+			range_ = true;
 		}
 		else if (results_.id == eName)
 		{
 			const std::string name_ = results_.str();
 
 			map_[name_].insert(lexertl::basic_string_token<std::size_t>::range
-			(num_, num_));
+			(range_ ? first_ : num_, num_));
 		}
 	} while (results_.id != 0);
 
diff --git a/include/lexertl/parser/tokeniser/unicode.hpp b/include/lexertl/parser/tokeniser/unicode.hpp
index 00e1d41..853def4 100644
--- a/include/lexertl/parser/tokeniser/unicode.hpp
+++ b/include/lexertl/parser/tokeniser/unicode.hpp
@@ -54,12 +54,12 @@
 
     static const char* Co()
     {
-        return "[\\xe000\\xf8ff\\xf0000\\xffffd\\x100000\\x10fffd]";
+        return "[\\xe000-\\xf8ff\\xf0000-\\xffffd\\x100000-\\x10fffd]";
     }
 
     static const char* Cs()
     {
-        return "[\\xd800\\xdb7f\\xdb80\\xdbff\\xdc00\\xdfff]";
+        return "[\\xd800-\\xdfff]";
     }
 
     static const char* Ll()
@@ -217,8 +217,8 @@
             "\\x2da8-\\x2dae\\x2db0-\\x2db6\\x2db8-\\x2dbe\\x2dc0-\\x2dc6"
             "\\x2dc8-\\x2dce\\x2dd0-\\x2dd6\\x2dd8-\\x2dde\\x3006\\x303c"
             "\\x3041-\\x3096\\x309f\\x30a1-\\x30fa\\x30ff\\x3105-\\x312f"
-            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400\\x4dbf\\x4e00"
-            "\\x9fff-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
+            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400-\\x4dbf"
+            "\\x4e00-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
             "\\xa610-\\xa61f\\xa62a\\xa62b\\xa66e\\xa6a0-\\xa6e5\\xa78f\\xa7f7"
             "\\xa7fb-\\xa801\\xa803-\\xa805\\xa807-\\xa80a\\xa80c-\\xa822"
             "\\xa840-\\xa873\\xa882-\\xa8b3\\xa8f2-\\xa8f7\\xa8fb\\xa8fd\\xa8fe"
@@ -228,7 +228,7 @@
             "\\xaa7a\\xaa7e-\\xaaaf\\xaab1\\xaab5\\xaab6\\xaab9-\\xaabd\\xaac0"
             "\\xaac2\\xaadb\\xaadc\\xaae0-\\xaaea\\xaaf2\\xab01-\\xab06"
             "\\xab09-\\xab0e\\xab11-\\xab16\\xab20-\\xab26\\xab28-\\xab2e"
-            "\\xabc0-\\xabe2\\xac00\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
+            "\\xabc0-\\xabe2\\xac00-\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
             "\\xf900-\\xfa6d\\xfa70-\\xfad9\\xfb1d\\xfb1f-\\xfb28"
             "\\xfb2a-\\xfb36\\xfb38-\\xfb3c\\xfb3e\\xfb40\\xfb41\\xfb43\\xfb44"
             "\\xfb46-\\xfbb1\\xfbd3-\\xfd3d\\xfd50-\\xfd8f\\xfd92-\\xfdc7"
@@ -281,26 +281,26 @@
             "\\x14400-\\x14646\\x16100-\\x1611d\\x16800-\\x16a38"
             "\\x16a40-\\x16a5e\\x16a70-\\x16abe\\x16ad0-\\x16aed"
             "\\x16b00-\\x16b2f\\x16b63-\\x16b77\\x16b7d-\\x16b8f"
-            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000"
-            "\\x187ff-\\x18cd5\\x18cff\\x18d00\\x18d1e\\x18d80-\\x18df2"
-            "\\x1b000-\\x1b122\\x1b132\\x1b150-\\x1b152\\x1b155"
-            "\\x1b164-\\x1b167\\x1b170-\\x1b2fb\\x1bc00-\\x1bc6a"
-            "\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88\\x1bc90-\\x1bc99\\x1df0a"
-            "\\x1e100-\\x1e12c\\x1e14e\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb"
-            "\\x1e4d0-\\x1e4ea\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de"
-            "\\x1e6e0-\\x1e6e2\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed"
-            "\\x1e6f0-\\x1e6f4\\x1e6fe\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb"
-            "\\x1e7ed\\x1e7ee\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4"
-            "\\x1ee00-\\x1ee03\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
+            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000-\\x18cd5"
+            "\\x18cff-\\x18d1e\\x18d80-\\x18df2\\x1b000-\\x1b122\\x1b132"
+            "\\x1b150-\\x1b152\\x1b155\\x1b164-\\x1b167\\x1b170-\\x1b2fb"
+            "\\x1bc00-\\x1bc6a\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88"
+            "\\x1bc90-\\x1bc99\\x1df0a\\x1e100-\\x1e12c\\x1e14e"
+            "\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb\\x1e4d0-\\x1e4ea"
+            "\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de\\x1e6e0-\\x1e6e2"
+            "\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed\\x1e6f0-\\x1e6f4\\x1e6fe"
+            "\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb\\x1e7ed\\x1e7ee"
+            "\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4\\x1ee00-\\x1ee03"
+            "\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
             "\\x1ee29-\\x1ee32\\x1ee34-\\x1ee37\\x1ee39\\x1ee3b\\x1ee42\\x1ee47"
             "\\x1ee49\\x1ee4b\\x1ee4d-\\x1ee4f\\x1ee51\\x1ee52\\x1ee54\\x1ee57"
             "\\x1ee59\\x1ee5b\\x1ee5d\\x1ee5f\\x1ee61\\x1ee62\\x1ee64"
             "\\x1ee67-\\x1ee6a\\x1ee6c-\\x1ee72\\x1ee74-\\x1ee77"
             "\\x1ee79-\\x1ee7c\\x1ee7e\\x1ee80-\\x1ee89\\x1ee8b-\\x1ee9b"
-            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb\\x20000"
-            "\\x2a6df\\x2a700\\x2b73f\\x2b740\\x2b81d\\x2b820\\x2cead\\x2ceb0"
-            "\\x2ebe0\\x2ebf0\\x2ee5d\\x2f800-\\x2fa1d\\x30000\\x3134a\\x31350"
-            "\\x323af\\x323b0\\x33479]";
+            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb"
+            "\\x20000-\\x2a6df\\x2a700-\\x2b81d\\x2b820-\\x2cead"
+            "\\x2ceb0-\\x2ebe0\\x2ebf0-\\x2ee5d\\x2f800-\\x2fa1d"
+            "\\x30000-\\x3134a\\x31350-\\x33479]";
     }
 
     static const char* Lt()
-- 
2.43.0


From cb8fd61eb3ad155ea50d52d775d21ea4d6fe4f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:53 +0000
Subject: [PATCH 25/51] fix: wide [[:print:]] is everything but \p{C}

---
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index 8f812a6..3b179eb 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -853,7 +853,7 @@ namespace lexertl::detail
                 {
                     // print
                     str_ = sizeof(input_char_type) == 1 ?
-                        "[\x20-\x7e]" : R"([\p{C}])";
+                        "[\x20-\x7e]" : R"([^\p{C}])";
                 }
                 else
                 {
-- 
2.43.0


From 1c7f121dfabb8307390a55f43fcfc8966a3a73ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 26/51] fix: fold characters that map in reverse order onto
 their own counterpart

---
 .../parser/tokeniser/re_tokeniser_helper.hpp    | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index 3b179eb..1f73f75 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -267,14 +267,15 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type first_ = ptr_->to.second +
+                        // The characters map in reverse order
+                        const index_type second_ = ptr_->to.first -
                             (range_.first - ptr_->from.first);
 
-                        out_.insert(range(first_,
-                            range_.second > ptr_->from.second ?
-                            ptr_->to.first :
-                            static_cast<index_type>(ptr_->to.second +
-                                (range_.second - ptr_->from.first))));
+                        out_.insert(range(range_.second >
+                            ptr_->from.second ? ptr_->to.second :
+                            static_cast<index_type>(ptr_->to.first -
+                                (range_.second - ptr_->from.first)),
+                            second_));
                     }
                 }
                 else if (range_.second >= ptr_->from.first &&
@@ -289,10 +290,10 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type second_ = ptr_->to.second +
+                        const index_type first_ = ptr_->to.first -
                             (range_.second - ptr_->from.first);
 
-                        out_.insert(range(ptr_->to.second, second_));
+                        out_.insert(range(first_, ptr_->to.first));
                     }
                 }
                 // Either range fully encompasses from range or not at all.
-- 
2.43.0


From 2fc908cfb94eb7e9fe12e3235a15671430f446fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:21 +0000
Subject: [PATCH 27/51] fix: cut the Unicode classes to what 16-bit characters
 can hold instead of rejecting them

---
 .../lexertl/parser/tokeniser/re_tokeniser.hpp | 14 +++++++-
 .../parser/tokeniser/re_tokeniser_helper.hpp  | 35 +++++++++++++++++--
 2 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index f5fc634..582e66e 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -450,7 +450,19 @@ namespace lexertl::detail
                 char_state state2_(str_ + 1, str_ + str_len_, state_._id,
                     state_._flags, state_._locale, nullptr);
 
-                tokeniser_helper::charset(state2_, token_);
+                tokeniser_helper::builtin_charset(state2_, token_,
+                    typename tokeniser_helper::template
+                    size<sizeof(char_type)>());
+
+                if (token_.empty())
+                {
+                    std::ostringstream ss_;
+
+                    ss_ << "Empty charset not allowed preceding index " <<
+                        state_.index();
+                    state_.error(ss_);
+                    throw runtime_error(ss_.str());
+                }
             }
             else
             {
diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index 1f73f75..9ba6281 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -135,7 +135,8 @@ namespace lexertl::detail
                             nullptr);
                         string_token temp_token_;
 
-                        charset(temp_state_, temp_token_);
+                        builtin_charset(temp_state_, temp_token_,
+                            size<sizeof(input_char_type)>());
                         token_.insert(temp_token_);
                     }
                 }
@@ -208,6 +209,35 @@ namespace lexertl::detail
             }
         }
 
+        // Reads a charset that is supplied by the library.
+        template<char ch>
+        static void builtin_charset(char_state& state_, string_token& token_,
+            const size<ch>&)
+        {
+            charset(state_, token_);
+        }
+
+        // The Unicode classes go beyond what 16 bit characters can hold.
+        static void builtin_charset(char_state& state_, string_token& token_,
+            const two&)
+        {
+            using helper = basic_re_tokeniser_helper<char, char32_t, id_type>;
+
+            typename helper::string_token full_;
+            const char32_t max_ = char_traits::max_val();
+
+            helper::charset(state_, full_);
+
+            for (const auto& range_ : full_._ranges)
+            {
+                if (range_.first > max_) break;
+
+                token_.insert(range(static_cast<index_type>(range_.first),
+                    static_cast<index_type>(range_.second > max_ ?
+                        max_ : range_.second)));
+            }
+        }
+
         static void fold(const range& range_, const std::locale& locale_,
             string_token& out_, const one&)
         {
@@ -1048,7 +1078,8 @@ namespace lexertl::detail
                 state_._id, state_._flags, state_._locale, nullptr);
             string_token temp_token_;
 
-            charset(temp_state_, temp_token_);
+            builtin_charset(temp_state_, temp_token_,
+                size<sizeof(input_char_type)>());
 
             if (negate_) temp_token_.negate();
 
-- 
2.43.0


From a9171ea3a9051bd217adc751a3972225c7cc27d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:49 +0000
Subject: [PATCH 28/51] fix: UTF output iterators compare equal only at the
 same unit of a code point

---
 include/lexertl/utf_iterators.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/utf_iterators.hpp b/include/lexertl/utf_iterators.hpp
index 1ec4ae2..9e7e326 100644
--- a/include/lexertl/utf_iterators.hpp
+++ b/include/lexertl/utf_iterators.hpp
@@ -283,13 +283,13 @@ namespace lexertl
         friend bool operator ==(const basic_utf8_out_iterator& lhs_,
             const basic_utf8_out_iterator& rhs_)
         {
-            return lhs_._it == rhs_._it;
+            return lhs_._it == rhs_._it && lhs_._index == rhs_._index;
         }
 
         friend bool operator !=(const basic_utf8_out_iterator& lhs_,
             const basic_utf8_out_iterator& rhs_)
         {
-            return lhs_._it != rhs_._it;
+            return lhs_._it != rhs_._it || lhs_._index != rhs_._index;
         }
 
         basic_utf8_out_iterator& operator ++()
@@ -329,13 +329,14 @@ namespace lexertl
 
         void next()
         {
+            _index = 0;
+
             if (_it == _eoi)
                 return;
 
             const std::size_t ch_ = *_it;
 
             _count = len(ch_);
-            _index = 0;
 
             switch (_count)
             {
@@ -544,13 +545,13 @@ namespace lexertl
         friend bool operator ==(const basic_utf16_out_iterator& lhs_,
             const basic_utf16_out_iterator& rhs_)
         {
-            return lhs_._it == rhs_._it;
+            return lhs_._it == rhs_._it && lhs_._index == rhs_._index;
         }
 
         friend bool operator !=(const basic_utf16_out_iterator& lhs_,
             const basic_utf16_out_iterator& rhs_)
         {
-            return lhs_._it != rhs_._it;
+            return lhs_._it != rhs_._it || lhs_._index != rhs_._index;
         }
 
         basic_utf16_out_iterator& operator ++()
@@ -590,13 +591,14 @@ namespace lexertl
 
         void next()
         {
+            _index = 0;
+
             if (_it == _eoi)
                 return;
 
             const std::size_t ch_ = *_it;
 
             _count = len(ch_);
-            _index = 0;
 
             switch (_count)
             {
-- 
2.43.0


From 3aff4c8638a4babd92f6d022f52be9320d7e27cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 29/51] fix: a stream iterator without text equals the end and
 one with text does not

---
 include/lexertl/stream_shared_iterator.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index b91e5d5..0a86a0b 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -37,10 +37,12 @@ namespace lexertl
             _shared = new shared(stream_, buff_size_, increment_);
             ++_shared->_ref_count;
             _shared->_clients.push_back(this);
+            // Nothing to read means that this is already the end.
+            _master = _shared->_len != 0;
         }
 
         basic_stream_shared_iterator(const basic_stream_shared_iterator& rhs_) :
-            _index(rhs_._master ? rhs_._shared->lowest() : rhs_._index),
+            _index(rhs_.index()),
             _shared(rhs_._shared)
         {
             if (_shared)
@@ -76,7 +78,7 @@ namespace lexertl
             if (this != &rhs_)
             {
                 _master = false;
-                _index = rhs_._master ? rhs_._shared->lowest() : rhs_._index;
+                _index = rhs_.index();
 
                 if (!_live && !rhs_._live)
                 {
@@ -114,10 +116,13 @@ namespace lexertl
         friend bool operator ==(const basic_stream_shared_iterator& lhs_,
             const basic_stream_shared_iterator& rhs_)
         {
-            return lhs_._index == rhs_._index &&
+            const std::size_t lhs_index_ = lhs_.index();
+            const std::size_t rhs_index_ = rhs_.index();
+
+            return lhs_index_ == rhs_index_ &&
                 (lhs_._shared == rhs_._shared ||
-                    (lhs_._index == shared::npos() ||
-                        rhs_._index == shared::npos()) &&
+                    (lhs_index_ == shared::npos() ||
+                        rhs_index_ == shared::npos()) &&
                     (!lhs_._shared || !rhs_._shared));
         }
 
@@ -302,6 +307,11 @@ namespace lexertl
         std::size_t _index = shared::npos();
         shared* _shared = nullptr;
 
+        std::size_t index() const
+        {
+            return _master ? _shared->lowest() : _index;
+        }
+
         void check_master()
         {
             if (!_shared)
-- 
2.43.0


From 3222a5c7ac645bbb8e92045cf214758cef7a2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 30/51] fix: assigning stream iterators keeps the clients and
 the reference count right

---
 include/lexertl/stream_shared_iterator.hpp | 60 +++++++++++-----------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index 0a86a0b..8f9382f 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -59,17 +59,7 @@ namespace lexertl
 
         ~basic_stream_shared_iterator()
         {
-            if (_shared)
-            {
-                --_shared->_ref_count;
-                _shared->erase(this);
-
-                if (_shared->_ref_count == 0)
-                {
-                    delete _shared;
-                    _shared = nullptr;
-                }
-            }
+            release();
         }
 
         basic_stream_shared_iterator& operator =
@@ -77,37 +67,33 @@ namespace lexertl
         {
             if (this != &rhs_)
             {
-                _master = false;
-                _index = rhs_.index();
+                const std::size_t index_ = rhs_.index();
 
-                if (!_live && !rhs_._live)
-                {
-                    if (rhs_._shared)
-                    {
-                        ++rhs_._shared->_ref_count;
-                    }
-                }
-                else if (!_live && rhs_._live)
+                if (_shared != rhs_._shared)
                 {
-                    rhs_._shared->_clients.push_back(this);
+                    release();
+                    _shared = rhs_._shared;
 
-                    if (!_shared)
+                    if (_shared)
                     {
-                        ++rhs_._shared->_ref_count;
+                        ++_shared->_ref_count;
                     }
                 }
-                else if (_live && !rhs_._live)
+
+                // Text is only kept for iterators that are clients
+                if (_shared)
                 {
                     _shared->erase(this);
 
-                    if (!rhs_._shared)
+                    if (index_ != shared::npos())
                     {
-                        --_shared->_ref_count;
+                        _shared->_clients.push_back(this);
                     }
                 }
 
-                _live = rhs_._live;
-                _shared = rhs_._shared;
+                _master = false;
+                _live = index_ != shared::npos();
+                _index = index_;
             }
 
             return *this;
@@ -312,6 +298,22 @@ namespace lexertl
             return _master ? _shared->lowest() : _index;
         }
 
+        void release()
+        {
+            if (_shared)
+            {
+                --_shared->_ref_count;
+                _shared->erase(this);
+
+                if (_shared->_ref_count == 0)
+                {
+                    delete _shared;
+                }
+
+                _shared = nullptr;
+            }
+        }
+
         void check_master()
         {
             if (!_shared)
-- 
2.43.0


From 7675171033c5221e001423d1c18a535023dede85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 31/51] fix: refill the stream iterator's buffer from its end
 without overlap or growth at the end of the stream

---
 include/lexertl/stream_shared_iterator.hpp | 62 ++++++----------------
 1 file changed, 15 insertions(+), 47 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index 8f9382f..f79a80c 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -9,6 +9,8 @@
 
 #include "runtime_error.hpp"
 
+#include <algorithm>
+#include <cstddef>
 #include <istream>
 #include <iterator>
 #include <vector>
@@ -172,46 +174,30 @@ namespace lexertl
                 const std::size_t lowest_ = lowest();
                 std::size_t read_ = 0;
 
+                // Don't grow the buffer when there is nothing left to read
+                if (!_stream.good())
+                    return false;
+
                 if (lowest_ == 0)
                 {
                     // Resize buffer
-                    const std::size_t old_size_ = _buffer.size();
-                    const std::size_t new_size_ = old_size_ + _increment;
-
-                    _buffer.resize(new_size_);
-                    _stream.read(&_buffer.front() + old_size_, _increment);
-                    read_ = static_cast<std::size_t>(_stream.gcount());
-
-                    if (read_)
+                    if (_len == _buffer.size())
                     {
-                        read_ += old_size_;
-                        _len = read_;
+                        _buffer.resize(_len + _increment);
                     }
                 }
                 else
                 {
-                    // Some systems have memcpy in namespace std
-                    using namespace std;
-                    const size_t start_ = _buffer.size() - lowest_;
-                    const size_t len_ = _buffer.size() - start_;
-
-                    memcpy(&_buffer.front(), &_buffer[lowest_], start_ *
-                        sizeof(char_type));
-                    _stream.read(&_buffer.front() + start_, len_);
-                    read_ = static_cast<size_t>(_stream.gcount());
+                    // The source and the destination can overlap
+                    std::copy(_buffer.begin() + lowest_,
+                        _buffer.begin() + _len, _buffer.begin());
                     subtract(lowest_);
-
-                    if (read_)
-                    {
-                        read_ += start_;
-                        _len = read_;
-                    }
-                    else
-                    {
-                        _len = highest();
-                    }
+                    _len -= lowest_;
                 }
 
+                _stream.read(_buffer.data() + _len, _buffer.size() - _len);
+                read_ = static_cast<std::size_t>(_stream.gcount());
+                _len += read_;
                 return read_ != 0;
             }
 
@@ -247,24 +233,6 @@ namespace lexertl
                 return lowest_;
             }
 
-            std::size_t highest() const
-            {
-                std::size_t highest_ = 0;
-                auto iter_ = _clients.cbegin();
-                auto end_ = _clients.cend();
-
-                for (; iter_ != end_; ++iter_)
-                {
-                    const basic_stream_shared_iterator* ptr_ = *iter_;
-
-                    if (ptr_->_index != npos() && ptr_->_index > highest_)
-                    {
-                        highest_ = ptr_->_index;
-                    }
-                }
-
-                return highest_;
-            }
 
             void subtract(const std::size_t lowest_)
             {
-- 
2.43.0


From f7efc1cb071aa3c35fc4a243c9a3fcd6a5f73204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 32/51] fix: recursive results with different stacks are not
 equal

---
 include/lexertl/match_results.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 20a66e1..0a1cc17 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -164,6 +164,16 @@ namespace lexertl
 
             while (!stack.empty()) stack.pop();
         }
+
+        friend bool operator ==(const recursive_match_results& lhs_,
+            const recursive_match_results& rhs_)
+        {
+            using base = match_results<iter, id_type, flags>;
+
+            return static_cast<const base&>(lhs_) ==
+                static_cast<const base&>(rhs_) &&
+                lhs_.stack == rhs_.stack;
+        }
     };
 
     using smatch = match_results<std::string::const_iterator>;
-- 
2.43.0


From 84ea6f3ff304d7b209775178cfb6ddc83a39728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 33/51] fix: replace() returns the iterator past the text
 written

---
 include/lexertl/replace.hpp | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 7655f38..688c958 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -31,13 +31,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_.cbegin(), fmt_.cend(), out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_.cbegin(), fmt_.cend(), out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -57,18 +57,18 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
-                std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
+                out_ = std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -90,22 +90,22 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const auto str_ = iter_->second(results_.first, results_.second);
 
-                std::copy(str_.cbegin(), str_.cend(), out_);
+                out_ = std::copy(str_.cbegin(), str_.cend(), out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -129,13 +129,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_, end_fmt_, out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_, end_fmt_, out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -153,10 +153,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* end_fmt_ = [end_ = iter_->second]() mutable
@@ -167,14 +167,14 @@ namespace lexertl
                         return end_;
                     }();
 
-                std::copy(iter_->second, end_fmt_, out_);
+                out_ = std::copy(iter_->second, end_fmt_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -193,10 +193,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* str_ =
@@ -209,14 +209,14 @@ namespace lexertl
                         return str_;
                     }();
 
-                std::copy(str_, end_str_, out_);
+                out_ = std::copy(str_, end_str_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
-- 
2.43.0


From 21fdc91ed56e7974ae9904b30ae1b21adc03d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 34/51] fix: replace() keeps text at the end that a rule
 without an id matched

---
 include/lexertl/replace.hpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 688c958..4c67111 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -37,7 +37,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -68,7 +68,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -105,7 +105,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -135,7 +135,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -174,7 +174,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -216,7 +216,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -244,7 +244,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -279,7 +279,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -319,7 +319,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -352,7 +352,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -385,7 +385,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -419,7 +419,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -451,7 +451,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -491,7 +491,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -532,7 +532,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -564,7 +564,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -603,7 +603,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -643,7 +643,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 }
-- 
2.43.0


From ae59cffe57db94782c3b3b58e6315600d0ab7688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 35/51] fix: let replace() of a C string compile with other
 string traits and allocators

---
 include/lexertl/replace.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 4c67111..ce8ff30 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -429,7 +429,7 @@ namespace lexertl
             const basic_state_machine<char_type, id_type>& sm_,
             const std::basic_string<char_type, straits, salloc>& fmt_)
     {
-        std::basic_string<char_type> ret_;
+        std::basic_string<char_type, straits, salloc> ret_;
         const char_type* end_s_ = [s_]() mutable
             {
                 for (; *s_; ++s_)
@@ -462,7 +462,7 @@ namespace lexertl
             const std::map<id_type,
                 std::basic_string<char_type, straits, salloc>>& fmt_)
     {
-        std::basic_string<char_type> ret_;
+        std::basic_string<char_type, straits, salloc> ret_;
         const char_type* end_s_ = [s_]() mutable
             {
                 for (; *s_; ++s_)
@@ -503,7 +503,7 @@ namespace lexertl
                 std::basic_string<char_type, straits, salloc>(*)
             (const char_type*, const char_type*)>& fmt_)
     {
-        std::basic_string<char_type> ret_;
+        std::basic_string<char_type, straits, salloc> ret_;
         const char_type* end_s_ = [s_]() mutable
             {
                 for (; *s_; ++s_)
-- 
2.43.0


From b1e1a2c18092693730e461bd25fd96816c89988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 36/51] fix: check the number of rows before a character
 machine is made from them

---
 include/lexertl/generator.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 5f015d7..c317880 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -83,14 +83,6 @@ namespace lexertl
                     check_zero_len(rules_, root_);
                     build_dfa(charset_map_, root_, internals_, temp_sm_, index_,
                         cr_id_, nl_id_, rules_.flags(), used_ids_);
-
-                    if (internals_._dfa[index_].size() /
-                        internals_._dfa_alphabet[index_] >= sm_traits::npos())
-                    {
-                        // Overflow
-                        throw runtime_error("The id_type you have chosen "
-                            "cannot hold this many DFA rows.");
-                    }
                 }
             }
 
@@ -285,6 +277,14 @@ namespace lexertl
 
             fix_clashes(eol_set_, cr_id_, nl_id_, zero_id_, dfa_, dfa_alphabet_,
                 compressed());
+
+            if (dfa_.size() / dfa_alphabet_ >= sm_traits::npos())
+            {
+                // Overflow
+                throw runtime_error("The id_type you have chosen "
+                    "cannot hold this many DFA rows.");
+            }
+
             append_dfa(charset_list_, internals_, sm_, dfa_index_, lookup());
         }
 
-- 
2.43.0


From 023230ae46680b065961f37dc24ee94cf3d16c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 37/51] fix: don't keep a lexer state that push_state() refuses

---
 include/lexertl/rules.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 13a28a9..303a5e5 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -197,6 +197,14 @@ namespace lexertl
         {
             validate(name_);
 
+            if (_statemap.size() >= npos() &&
+                _statemap.find(name_) == _statemap.end())
+            {
+                // Overflow
+                throw runtime_error("The id_type you have chosen cannot hold "
+                    "this many lexer start states.");
+            }
+
             if (_statemap.insert(string_id_type_pair(name_,
                 static_cast<id_type>(_statemap.size()))).second)
             {
@@ -219,13 +227,6 @@ namespace lexertl
                 return _statemap.find(name_)->second;
             }
 
-            if (_next_dfas.size() > npos())
-            {
-                // Overflow
-                throw runtime_error("The id_type you have chosen cannot hold "
-                    "this many lexer start states.");
-            }
-
             // Initial is not stored, so no need to - 1.
             return static_cast<id_type>(_lexer_state_names.size());
         }
-- 
2.43.0


From 8b088d7281635ff30c3203467bcabad2d620d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 38/51] fix: exchange the features of ^ and $ when the rules
 are reversed

---
 include/lexertl/rules.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 303a5e5..7ce2060 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -397,6 +397,18 @@ namespace lexertl
             {
                 reverse(pair_.second);
             }
+
+            // ^ has become $ and vice versa
+            for (auto& features_ : _features)
+            {
+                const bool bol_ = (features_ & *feature_bit::bol) != 0;
+                const bool eol_ = (features_ & *feature_bit::eol) != 0;
+
+                if (bol_ != eol_)
+                {
+                    features_ ^= *feature_bit::bol | *feature_bit::eol;
+                }
+            }
         }
 
         const string_id_type_map& statemap() const
-- 
2.43.0


From 81a9a23e6472c30cf6577f07b94c2a810bdba6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 39/51] fix: let the dump of rules compile (comparison of regex
 tokens)

---
 include/lexertl/parser/tokeniser/re_token.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index deacf28..63774e3 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -40,6 +40,13 @@ namespace lexertl::detail
         {
         }
 
+        friend bool operator ==(const basic_re_token& lhs_,
+            const basic_re_token& rhs_)
+        {
+            return lhs_._type == rhs_._type && lhs_._extra == rhs_._extra &&
+                lhs_._str == rhs_._str;
+        }
+
         void clear()
         {
             _type = token_type::BEGIN;
-- 
2.43.0


From f52ac719d832889544f33d58905a031fac8522cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 40/51] fix: dump of rules: set the state to be remembered
 whenever it is not the current one

---
 include/lexertl/debug.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 7872e95..ed675b7 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -104,7 +104,8 @@ namespace lexertl
 
                     if (push_state_ != rules_.npos())
                     {
-                        if (push_state_ && push_state_ != dfa_)
+                        // yy_push_state() remembers the current state
+                        if (push_state_ != state_)
                         {
                             Begin(stream_);
                             stream_ << rules_.state(push_state_);
-- 
2.43.0


From c9b9a0c6679f73cb370914a4a5fba59fcd2d2514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 41/51] fix: dumps: output 8-bit ids as numbers

---
 include/lexertl/debug.hpp | 3 ++-
 include/lexertl/dot.hpp   | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index ed675b7..585a5ba 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -329,7 +329,8 @@ namespace lexertl
                         dfa_state::push_pop_dfa::push_dfa)
                     {
                         push(stream_);
-                        stream_num(state_._push_dfa, stream_);
+                        stream_num(static_cast<std::size_t>
+                            (state_._push_dfa), stream_);
                     }
                     else if (state_._push_pop_dfa ==
                         dfa_state::push_pop_dfa::pop_dfa)
diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 4e54763..4ca7b45 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -71,9 +71,9 @@ namespace lexertl
             stringstream namestream_;
 
             namestream_ << 'L';
-            stream_num(dfa_id_, namestream_);
+            stream_num(static_cast<std::size_t>(dfa_id_), namestream_);
             namestream_ << "_S";
-            stream_num(state_id_, namestream_);
+            stream_num(static_cast<std::size_t>(state_id_), namestream_);
             return namestream_.str();
         }
 
@@ -186,7 +186,7 @@ namespace lexertl
                     if (name_)
                         stream_ << name_;
                     else
-                        stream_ << dfa_id_;
+                        stream_num(static_cast<std::size_t>(dfa_id_), stream_);
 
                     stream_ << "\"];" << std::endl;
                 }
-- 
2.43.0


From d3c6c14d87736afdc03d6d452776212c60ca4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 42/51] fix: dumps: print character sets so that they can be
 read back

---
 include/lexertl/debug.hpp        | 77 +++++++++++++++++---------------
 include/lexertl/string_token.hpp | 32 ++++++++++---
 2 files changed, 67 insertions(+), 42 deletions(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 585a5ba..0e45194 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -59,9 +59,11 @@ namespace lexertl
             {
                 stream_ << pair_.first << static_cast<char_type>(' ');
 
+                bool numeric_ = false;
+
                 for (const auto& token_ : pair_.second)
                 {
-                    dump_token(token_, stream_);
+                    dump_token(token_, numeric_, stream_);
                 }
 
                 stream_ << std::endl;
@@ -94,9 +96,11 @@ namespace lexertl
                             static_cast<char_type>('>');
                     }
 
+                    bool numeric_ = false;
+
                     for (; regexes_iter_ != regexes_end_; ++regexes_iter_)
                     {
-                        dump_token(*regexes_iter_, stream_);
+                        dump_token(*regexes_iter_, numeric_, stream_);
                     }
 
                     stream_ << static_cast<char_type>(' ') <<
@@ -374,14 +378,17 @@ namespace lexertl
         static void dump_transition(const id_type_string_token_pair& tran_,
             ostream& stream_)
         {
+            bool numeric_ = false;
+
             indent(stream_);
-            dump_charset(tran_.second, stream_);
+            dump_charset(tran_.second, numeric_, stream_);
             goes_to(stream_);
             stream_num(static_cast<std::size_t>(tran_.first), stream_);
             stream_ << std::endl;
         }
 
-        static void dump_token(const token& token_, ostream& stream_)
+        static void dump_token(const token& token_, bool& numeric_,
+            ostream& stream_)
         {
             switch (token_._type)
             {
@@ -389,8 +396,8 @@ namespace lexertl
                 stream_ << static_cast<char_type>('|');
                 break;
             case lexertl::detail::token_type::CHARSET:
-                dump_charset(token_._str, stream_);
-                break;
+                dump_charset(token_._str, numeric_, stream_);
+                return;
             case lexertl::detail::token_type::BOL:
                 stream_ << static_cast<char_type>('^');
                 break;
@@ -441,18 +448,22 @@ namespace lexertl
             default:
                 break;
             }
+
+            numeric_ = false;
         }
 
+        // numeric_: whether the last character output was a numeric escape
         static void dump_charset(const string_token& in_token_,
-            ostream& stream_)
+            bool& numeric_, ostream& stream_)
         {
             string_token token_ = in_token_;
-            bool negated_ = false;
+            const bool brackets_ = token_._ranges.size() > 1 ||
+                token_._ranges.front().first != token_._ranges.front().second;
 
-            if (token_._ranges.size() > 1 ||
-                token_._ranges.front().first != token_._ranges.front().second)
+            if (brackets_)
             {
                 open_bracket(stream_);
+                numeric_ = false;
             }
             else
             {
@@ -472,6 +483,7 @@ namespace lexertl
                 case static_cast<char_type>(']'):
                 case static_cast<char_type>('.'):
                 case static_cast<char_type>('/'):
+                case static_cast<char_type>('$'):
                     stream_ << static_cast<char_type>('\\');
                     break;
                 default:
@@ -483,51 +495,44 @@ namespace lexertl
             {
                 token_.negate();
                 negated(stream_);
-                negated_ = true;
             }
 
-            string chars_;
-
             for (const auto& range_ : token_._ranges)
             {
-                if (range_.first == static_cast<char_type>('-') ||
-                    range_.first == static_cast<char_type>('^') ||
-                    (range_.first == static_cast<char_type>(']') &&
-                    range_.first != range_.second))
-                {
-                    stream_ << static_cast<char_type>('\\');
-                }
-
-                chars_ = string_token::escape_char
-                (range_.first);
+                dump_char(range_.first, brackets_, numeric_, stream_);
 
                 if (range_.first != range_.second)
                 {
                     if (range_.first + 1 < range_.second)
                     {
-                        chars_ += static_cast<char_type>('-');
-                    }
-
-                    if (range_.second == static_cast<char_type>('-') ||
-                        range_.second == static_cast<char_type>('^') ||
-                        range_.second == static_cast<char_type>(']'))
-                    {
-                        stream_ << static_cast<char_type>('\\');
+                        stream_ << static_cast<char_type>('-');
+                        numeric_ = false;
                     }
 
-                    chars_ += string_token::escape_char(range_.second);
+                    dump_char(range_.second, brackets_, numeric_, stream_);
                 }
-
-                stream_ << chars_;
             }
 
-            if (token_._ranges.size() > 1 || negated_ ||
-                token_._ranges.front().first != token_._ranges.front().second)
+            if (brackets_)
             {
                 close_bracket(stream_);
+                numeric_ = false;
             }
         }
 
+        static void dump_char(const typename string_token::index_type ch_,
+            const bool brackets_, bool& numeric_, ostream& stream_)
+        {
+            if (ch_ == static_cast<char_type>('-') ||
+                ch_ == static_cast<char_type>('^') ||
+                (brackets_ && ch_ == static_cast<char_type>(']')))
+            {
+                stream_ << static_cast<char_type>('\\');
+            }
+
+            stream_ << string_token::escape_char(ch_, numeric_);
+        }
+
         static void perc_perc(std::ostream& stream_)
         {
             stream_ << "%%";
diff --git a/include/lexertl/string_token.hpp b/include/lexertl/string_token.hpp
index ebe5d27..3fff169 100644
--- a/include/lexertl/string_token.hpp
+++ b/include/lexertl/string_token.hpp
@@ -325,15 +325,28 @@ namespace lexertl
             }
         }
 
-        static string escape_char(const typename char_traits::index_type ch_)
+        static string escape_char(const index_type ch_)
         {
+            bool numeric_ = false;
+
+            return escape_char(ch_, numeric_);
+        }
+
+        // numeric_: whether the last character output was a numeric escape,
+        // which would take in a following digit.
+        static string escape_char(const index_type ch_, bool& numeric_)
+        {
+            const bool after_numeric_ = numeric_;
             string out_;
 
+            numeric_ = false;
+
             switch (ch_)
             {
             case '\0':
                 out_ += '\\';
                 out_ += '0';
+                numeric_ = true;
                 break;
             case '\a':
                 out_ += '\\';
@@ -348,6 +361,7 @@ namespace lexertl
                 out_ += 'x';
                 out_ += '1';
                 out_ += 'b';
+                numeric_ = true;
                 break;
             case '\f':
                 out_ += '\\';
@@ -383,15 +397,21 @@ namespace lexertl
                 break;
             default:
             {
-                if (ch_ < 32 || ch_ > 126)
+                if (ch_ < 32 || ch_ > 126 || (after_numeric_ &&
+                    ((ch_ >= '0' && ch_ <= '9') ||
+                    (ch_ >= 'A' && ch_ <= 'F') ||
+                    (ch_ >= 'a' && ch_ <= 'f'))))
                 {
-                    std::basic_stringstream<char_type> ss_;
+                    std::ostringstream ss_;
 
                     out_ += '\\';
                     out_ += 'x';
-                    ss_ << std::hex;
-                    stream_num(static_cast<std::size_t>(ch_), ss_);
-                    out_ += ss_.str();
+                    ss_ << std::hex << static_cast<std::size_t>(ch_);
+
+                    for (const char c_ : ss_.str())
+                        out_ += static_cast<char_type>(c_);
+
+                    numeric_ = true;
                 }
                 else
                 {
-- 
2.43.0


From a1048a059e291f4fbfa2f5c76875c15bbdf3721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 43/51] fix: graph dump: no edge to a lexer state that does not
 exist for rules that pop

---
 include/lexertl/dot.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 4ca7b45..45355f9 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -236,7 +236,10 @@ namespace lexertl
                     stream_ << "</TD></TR></TABLE>>];" << std::endl;
                 }
 
-                if (dfas_ > 1 && state_._end_state) {
+                // The lexer state after a pop is only known when lexing.
+                if (dfas_ > 1 && state_._end_state &&
+                    state_._push_pop_dfa != dfa_state::push_pop_dfa::pop_dfa)
+                {
                     const string dst_name = node_name(state_._next_dfa, 0);
                     stream_ << "    " << src_name << " -> " << dst_name
                         << " [style = \"dashed\"];" << std::endl;
-- 
2.43.0


From 6121eb4983ec00b76af363c5ae31ed807fc34301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 44/51] fix: let the graph dump of wide machines compile

---
 include/lexertl/dot.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 45355f9..7a2711b 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -178,7 +178,7 @@ namespace lexertl
 
                 if (i_ == 0)
                 {
-                    const char* name_ = rules_.state(dfa_id_);
+                    const char_type* name_ = rules_.state(dfa_id_);
 
                     stream_ << "    " << name <<
                         " [shape = circle, xlabel=\"";
-- 
2.43.0


From 60caa4499a8840dc95b95bbe5f8b4d6818d64791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 45/51] fix: graph dump: print character sets unambiguously and
 as well-formed labels

---
 include/lexertl/dot.hpp | 131 +++++++++++++---------------------------
 1 file changed, 41 insertions(+), 90 deletions(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 7a2711b..eb0b881 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -79,86 +79,39 @@ namespace lexertl
 
         // Escape control characters twice. This is necessary when
         // expressing character sets attached as to DOT nodes as
-        // labels.
-        static string double_escape_char(const id_type ch_)
+        // labels. The labels are HTML, so escape its characters, too.
+        static string double_escape_char
+            (const typename string_token::index_type ch_, bool& numeric_)
         {
-            stringstream out_;
+            string out_;
 
-            switch (ch_)
+            for (const char_type c_ : string_token::escape_char(ch_, numeric_))
             {
-            case '\0':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << '0';
-                break;
-            case '\a':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'a';
-                break;
-            case '\b':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'b';
-                break;
-            case '\f':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'f';
-                break;
-            case '\n':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'n';
-                break;
-            case '\r':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'r';
-                break;
-            case '\t':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 't';
-                break;
-            case '\v':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'v';
-                break;
-            case '\\':
-                out_ << '\\';
-                out_ << '\\';
-                break;
-            case '"':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << '"';
-                break;
-            case '\'':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << '\'';
-                break;
-            default:
-            {
-                if (ch_ < 32 || ch_ > 126)
+                switch (c_)
                 {
-                    out_ << '\\';
-                    out_ << 'x';
-                    out_ << std::hex;
-                    stream_num(static_cast<std::size_t>(ch_), out_);
+                case '\\':
+                    out_ += '\\';
+                    out_ += '\\';
+                    break;
+                case '&':
+                    for (const char e_ : { '&', 'a', 'm', 'p', ';' })
+                        out_ += e_;
+                    break;
+                case '<':
+                    for (const char e_ : { '&', 'l', 't', ';' })
+                        out_ += e_;
+                    break;
+                case '>':
+                    for (const char e_ : { '&', 'g', 't', ';' })
+                        out_ += e_;
+                    break;
+                default:
+                    out_ += c_;
+                    break;
                 }
-                else
-                {
-                    out_ << char_type(ch_);
-                }
-
-                break;
-            }
             }
 
-            return out_.str();
+            return out_;
         }
 
         // Internal function actually performing the work of dumping the
@@ -249,36 +202,34 @@ namespace lexertl
 
         static void dump_ranges(const string_token& token_, ostream& stream_)
         {
-            string chars_;
+            bool numeric_ = false;
 
             for (const auto& range : token_._ranges)
             {
-                if (range.first == '^' ||
-                    range.first == ']')
-                {
-                    stream_ << R"(\\)";
-                }
-
-                chars_ = double_escape_char(range.first);
+                dump_char(range.first, numeric_, stream_);
 
                 if (range.first != range.second)
                 {
                     if (range.first + 1 < range.second)
                     {
-                        chars_ += '-';
+                        stream_ << '-';
+                        numeric_ = false;
                     }
 
-                    if (range.second == '^' ||
-                        range.second == ']')
-                    {
-                        stream_ << R"(\\)";
-                    }
-
-                    chars_ += double_escape_char(range.second);
+                    dump_char(range.second, numeric_, stream_);
                 }
+            }
+        }
 
-                stream_ << chars_;
+        static void dump_char(const typename string_token::index_type ch_,
+            bool& numeric_, ostream& stream_)
+        {
+            if (ch_ == '-' || ch_ == '^' || ch_ == ']')
+            {
+                stream_ << R"(\\)";
             }
+
+            stream_ << double_escape_char(ch_, numeric_);
         }
 
         static void header(ostream& stream_)
-- 
2.43.0


From 010c9ba9a0a74a4bba6278504d02eaacbb0b34f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 46/51] fix: memory_file: unmap the whole file for every
 character type

---
 include/lexertl/memory_file.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/memory_file.hpp b/include/lexertl/memory_file.hpp
index d1c7768..d2ae6f6 100644
--- a/include/lexertl/memory_file.hpp
+++ b/include/lexertl/memory_file.hpp
@@ -93,7 +93,8 @@ namespace lexertl
                     }
                     else
                     {
-                        _size = sbuf_.st_size / sizeof(char_type);
+                        _length = sbuf_.st_size;
+                        _size = _length / sizeof(char_type);
                     }
                 }
             }
@@ -117,7 +118,7 @@ namespace lexertl
 #ifdef _WIN32
                 ::UnmapViewOfFile(_data);
 #else
-                ::munmap(const_cast<char_type*>(_data), _size);
+                ::munmap(const_cast<char_type*>(_data), _length);
 #endif
                 _data = nullptr;
                 _size = 0;
@@ -148,6 +149,8 @@ namespace lexertl
         HANDLE _fh = nullptr;
         HANDLE _fmh = nullptr;
 #else
+        // In bytes
+        std::size_t _length = 0;
         int _fh = 0;
 #endif
     };
-- 
2.43.0


From 5c5555442b1dca04a69f4bf86f90b4d9b0e1ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 47/51] fix: memory_file: close the descriptor of a file that
 could not be mapped, and descriptor 0

---
 include/lexertl/memory_file.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/lexertl/memory_file.hpp b/include/lexertl/memory_file.hpp
index d2ae6f6..845bf38 100644
--- a/include/lexertl/memory_file.hpp
+++ b/include/lexertl/memory_file.hpp
@@ -46,10 +46,7 @@ namespace lexertl
 
         void open(const char* pathname_)
         {
-            if (_data)
-            {
-                close();
-            }
+            close();
 
 #ifdef _WIN32
             _fh = ::CreateFileA(pathname_, GENERIC_READ, FILE_SHARE_READ,
@@ -135,10 +132,10 @@ namespace lexertl
 
             _fh = nullptr;
 #else
-            if (_fh)
+            if (_fh > -1)
                 ::close(_fh);
 
-            _fh = 0;
+            _fh = -1;
 #endif
         }
 
@@ -151,7 +148,7 @@ namespace lexertl
 #else
         // In bytes
         std::size_t _length = 0;
-        int _fh = 0;
+        int _fh = -1;
 #endif
     };
 
-- 
2.43.0


From 6b91dcf0f7d52eb9fb7f67204aa31e87cb8e8c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 48/51] fix: refuse more character sets than the id type can
 number

---
 include/lexertl/parser/parser.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 90bf23e..0e14eb7 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -766,16 +766,18 @@ namespace lexertl::detail
             // Converted to id_type below.
             std::size_t id_ = sm_traits::npos();
 
-            if (static_cast<id_type>(id_) < id_)
-            {
-                throw runtime_error("id_type is not large enough "
-                    "to hold all ids.");
-            }
-
             if (auto iter_ = _charset_map.find(charset_);
                 iter_ == _charset_map.end())
             {
                 id_ = _charset_map.size();
+
+                // The ids from eol_token() on are reserved
+                if (id_ >= eol_token())
+                {
+                    throw runtime_error("id_type is not large enough "
+                        "to hold all ids.");
+                }
+
                 _charset_map.insert(charset_pair(charset_,
                     static_cast<id_type>(id_)));
             }
-- 
2.43.0


From 423c18236044ca2cadde96a6f65c32aa288842c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 49/51] fix: do not confuse rules whose numbers differ by more
 than the id type holds

---
 include/lexertl/generator.hpp             | 18 +++++++++---------
 include/lexertl/parser/parser.hpp         |  2 +-
 include/lexertl/parser/tree/end_node.hpp  |  6 +++---
 include/lexertl/parser/tree/leaf_node.hpp |  6 +++---
 include/lexertl/parser/tree/node.hpp      |  4 ++--
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index c317880..c8f44d4 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -51,8 +51,8 @@ namespace lexertl
             internals internals_;
             sm temp_sm_;
             node_ptr_vector node_ptr_vector_;
-            std::set<id_type> used_ids_;
-            id_type unique_id_ = 0;
+            std::set<std::size_t> used_ids_;
+            std::size_t unique_id_ = 0;
 
             internals_._eoi = rules_.eoi();
             internals_.add_states(size_);
@@ -96,7 +96,7 @@ namespace lexertl
         static observer_ptr<node> build_tree(const rules& rules_,
             const std::size_t dfa_, node_ptr_vector& node_ptr_vector_,
             charset_map& charset_map_, id_type& cr_id_, id_type& nl_id_,
-            id_type& unique_id_)
+            std::size_t& unique_id_)
         {
             parser parser_(rules_.locale(), node_ptr_vector_, charset_map_,
                 rules_.eoi());
@@ -180,7 +180,7 @@ namespace lexertl
         static void build_dfa(const charset_map& charset_map_,
             const observer_ptr<node> root_, internals& internals_, sm& sm_,
             const id_type dfa_index_, id_type& cr_id_, id_type& nl_id_,
-            const std::size_t flags_, std::set<id_type>& used_ids_)
+            const std::size_t flags_, std::set<std::size_t>& used_ids_)
         {
             // partitioned charset list
             charset_list charset_list_;
@@ -292,7 +292,7 @@ namespace lexertl
         // explicit greedy repeat. The other rules are not affected.
         static node_vector live_nodes(const node_vector& vector_)
         {
-            std::set<id_type> matched_;
+            std::set<std::size_t> matched_;
             node_vector ret_;
 
             for (observer_ptr<const node> node_ : vector_)
@@ -547,11 +547,11 @@ namespace lexertl
         }
 
         static void check_suppressed(const rules& rules_,
-            const id_type unique_id_, std::set<id_type>& used_ids_)
+            const std::size_t unique_id_, std::set<std::size_t>& used_ids_)
         {
             if (!(rules_.flags() & *regex_flags::allow_suppressed_rules))
             {
-                for (id_type id_ = 0; id_ < unique_id_; ++id_)
+                for (std::size_t id_ = 0; id_ < unique_id_; ++id_)
                 {
                     if (used_ids_.find(id_ + 1) == used_ids_.end())
                     {
@@ -882,7 +882,7 @@ namespace lexertl
             node_set_vector& seen_sets_, node_vector_vector& seen_vectors_,
             size_t_vector& hash_vector_, const id_type size_,
             id_type_vector& dfa_, const std::size_t flags_,
-            std::set<id_type>& used_ids_)
+            std::set<std::size_t>& used_ids_)
         {
             bool end_state_ = false;
             id_type id_ = 0;
@@ -958,7 +958,7 @@ namespace lexertl
             id_type& push_dfa_, bool& pop_dfa_, node_set& set_ptr_,
             node_vector& vector_ptr_, std::size_t& hash_,
             greedy_repeat& greedy_, const std::size_t flags_,
-            std::set<id_type>& used_ids_)
+            std::set<std::size_t>& used_ids_)
         {
             if (node_->end_state())
             {
diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 0e14eb7..fb65f9d 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -91,7 +91,7 @@ namespace lexertl::detail
         }
 
         observer_ptr<node> parse(const token_vector& regex_, const id_type id_,
-            const id_type user_id_, const id_type unique_id_,
+            const id_type user_id_, const std::size_t unique_id_,
             const id_type next_dfa_, const id_type push_dfa_,
             const bool pop_dfa_, id_type& cr_id_, id_type& nl_id_,
             const bool seen_bol_)
diff --git a/include/lexertl/parser/tree/end_node.hpp b/include/lexertl/parser/tree/end_node.hpp
index aa02515..97b2476 100644
--- a/include/lexertl/parser/tree/end_node.hpp
+++ b/include/lexertl/parser/tree/end_node.hpp
@@ -24,7 +24,7 @@ namespace lexertl::detail
         using node_vector = typename node::node_vector;
 
         basic_end_node(const id_type id_,
-            const id_type user_id_, const id_type unique_id_,
+            const id_type user_id_, const std::size_t unique_id_,
             const id_type next_dfa_, const id_type push_dfa_,
             const bool pop_dfa_, const greedy_repeat greedy_) :
             node(false),
@@ -85,7 +85,7 @@ namespace lexertl::detail
             return _user_id;
         }
 
-        id_type unique_id() const override
+        std::size_t unique_id() const override
         {
             return _unique_id;
         }
@@ -108,7 +108,7 @@ namespace lexertl::detail
     private:
         id_type _id;
         id_type _user_id;
-        id_type _unique_id;
+        std::size_t _unique_id;
         id_type _next_dfa;
         id_type _push_dfa;
         bool _pop_dfa;
diff --git a/include/lexertl/parser/tree/leaf_node.hpp b/include/lexertl/parser/tree/leaf_node.hpp
index e8b0f51..0919400 100644
--- a/include/lexertl/parser/tree/leaf_node.hpp
+++ b/include/lexertl/parser/tree/leaf_node.hpp
@@ -72,12 +72,12 @@ namespace lexertl::detail
         }
 
         // Only set for the leaves of a non-greedy rule
-        void unique_id(const id_type unique_id_) override
+        void unique_id(const std::size_t unique_id_) override
         {
             _unique_id = unique_id_;
         }
 
-        id_type unique_id() const override
+        std::size_t unique_id() const override
         {
             return _unique_id;
         }
@@ -95,7 +95,7 @@ namespace lexertl::detail
     private:
         id_type _token;
         greedy_repeat _greedy;
-        id_type _unique_id = 0;
+        std::size_t _unique_id = 0;
         node_vector _followpos;
 
         void copy_node(node_ptr_vector& node_ptr_vector_,
diff --git a/include/lexertl/parser/tree/node.hpp b/include/lexertl/parser/tree/node.hpp
index da1dae2..7514083 100644
--- a/include/lexertl/parser/tree/node.hpp
+++ b/include/lexertl/parser/tree/node.hpp
@@ -147,7 +147,7 @@ namespace lexertl::detail
 #endif
         }
 
-        virtual id_type unique_id() const
+        virtual std::size_t unique_id() const
         {
             throw runtime_error("Internal error node::unique_id().");
 #ifdef __SUNPRO_CC
@@ -156,7 +156,7 @@ namespace lexertl::detail
 #endif
         }
 
-        virtual void unique_id(const id_type /*unique_id_*/)
+        virtual void unique_id(const std::size_t /*unique_id_*/)
         {
             throw runtime_error("Internal error node::unique_id(id).");
         }
-- 
2.43.0


From 940e94dd0331ac316063fe4f1f2a712c3911d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 50/51] fix: match_results::subview compiles for string
 iterators

---
 include/lexertl/match_results.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 0a1cc17..675d943 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -75,8 +75,7 @@ namespace lexertl
         string_view subview(const std::size_t soffset_,
             const std::size_t eoffset_) const
         {
-            return string_view(first + soffset_,
-                length() - soffset_ - eoffset_);
+            return view().substr(soffset_, length() - soffset_ - eoffset_);
         }
 
         virtual void clear()
-- 
2.43.0


From 5aa47a26566ac98347ab78a1f75bc4e71d0e7539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 51/51] fix: don't sign-extend characters of narrow rules for
 wide machines

---
 include/lexertl/parser/tokeniser/re_tokeniser.hpp        | 6 ++++--
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index 582e66e..02eebe6 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -98,7 +98,8 @@ namespace lexertl::detail
                     // All other meta characters lose their special meaning
                     // inside a string.
                     token_._type = token_type::CHARSET;
-                    add_char(ch_, state_, token_._str);
+                    add_char(static_cast<typename state::index_type>(ch_),
+                        state_, token_._str);
                 }
                 else
                 {
@@ -234,7 +235,8 @@ namespace lexertl::detail
                     }
                     default:
                         token_._type = token_type::CHARSET;
-                        add_char(ch_, state_, token_._str);
+                        add_char(static_cast<typename state::index_type>(ch_),
+                            state_, token_._str);
                         break;
                     }
                 }
diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index 9ba6281..cb31c05 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -150,7 +150,7 @@ namespace lexertl::detail
                 else
                 {
                     chset_ = false;
-                    prev_ = ch_;
+                    prev_ = static_cast<typename state_type::index_type>(ch_);
                 }
 
                 eos_ = state_.next(ch_);
@@ -444,7 +444,8 @@ namespace lexertl::detail
                 ch_ = decode_hex(state_);
                 break;
             default:
-                ch_ = *state_._curr;
+                ch_ = static_cast<typename state_type::index_type>
+                    (*state_._curr);
                 state_.increment();
                 break;
             }
@@ -1465,7 +1466,7 @@ namespace lexertl::detail
             }
             else
             {
-                curr_ = ch_;
+                curr_ = static_cast<typename state_type::index_type>(ch_);
             }
 
             eos_ = state_.next(ch_);
-- 
2.43.0

