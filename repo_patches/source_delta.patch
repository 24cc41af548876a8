From 973d955645b250116774f0e6a277bab98e64e428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 01/29] fix: one_of keeps its selection in the parse target, so
 a tree can be parsed more than once

---
 include/arg_router/dependency/one_of.hpp    | 47 +++++++++++++++------
 include/arg_router/mode.hpp                 |  1 +
 include/arg_router/parsing/parse_target.hpp | 18 +++++++-
 3 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/include/arg_router/dependency/one_of.hpp b/include/arg_router/dependency/one_of.hpp
index 0a7e3c5..d7dd05d 100644
--- a/include/arg_router/dependency/one_of.hpp
+++ b/include/arg_router/dependency/one_of.hpp
@@ -88,18 +88,7 @@ public:
         // We need to wrap the pre_parse_data validator so that we can catch child type mismatches
         // before the caller's validation, otherwise the user can get misleading error messages
         const auto validator = [&](const auto& child, const auto&... parents) {
-            using child_type = std::decay_t<decltype(child)>;
-
-            auto type_hash = utility::type_hash<child_type>();
-            if (last_typeid_) {
-                if (type_hash != *last_typeid_) {
-                    throw multi_lang_exception{error_code::one_of_selected_type_mismatch,
-                                               parsing::node_token_type<one_of_t>()};
-                }
-            } else {
-                last_typeid_ = type_hash;
-            }
-
+            verify_selection(utility::type_hash<std::decay_t<decltype(child)>>(), pre_parse_data);
             return pre_parse_data.validator()(child, parents...);
         };
         auto wrapper =
@@ -129,6 +118,40 @@ public:
     }
 
 private:
+    template <typename Validator, bool HasTarget>
+    void verify_selection(
+        std::size_t type_hash,
+        [[maybe_unused]] const parsing::pre_parse_data<Validator, HasTarget>& pre_parse_data) const
+    {
+        auto matches = true;
+        if constexpr (HasTarget) {
+            // The previous selections are held in the parent's target, this node must not hold any
+            // itself otherwise they would persist into any following parse using this tree
+            for (const auto& sub_target : pre_parse_data.target().sub_targets()) {
+                const auto source_hash = sub_target.source_type();
+                utility::tuple_type_iterator<children_type>([&](auto i) {
+                    const auto child_hash =
+                        utility::type_hash<std::tuple_element_t<i, children_type>>();
+                    if ((source_hash == child_hash) && (source_hash != type_hash)) {
+                        matches = false;
+                    }
+                });
+            }
+        } else {
+            if (last_typeid_) {
+                matches = type_hash == *last_typeid_;
+            } else {
+                last_typeid_ = type_hash;
+            }
+        }
+
+        if (!matches) {
+            throw multi_lang_exception{error_code::one_of_selected_type_mismatch,
+                                       parsing::node_token_type<one_of_t>()};
+        }
+    }
+
+    // Only used if there is no parent target
     mutable std::optional<std::size_t> last_typeid_;
 };
 
diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index 495f6ca..bbce268 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -329,6 +329,7 @@ private:
                 target.add_sub_target(std::move(*match));
             } else {
                 for (auto& sub_target : match->sub_targets()) {
+                    sub_target.source_type(match->node_type());
                     target.add_sub_target(std::move(sub_target));
                 }
             }
diff --git a/include/arg_router/parsing/parse_target.hpp b/include/arg_router/parsing/parse_target.hpp
index 25024c8..1fbadcc 100644
--- a/include/arg_router/parsing/parse_target.hpp
+++ b/include/arg_router/parsing/parse_target.hpp
@@ -39,7 +39,8 @@ public:
      */
     template <typename Node, typename... Parents>
     parse_target(vector<token_type> tokens, const Node& node, const Parents&... parents) noexcept :
-        node_type_{utility::type_hash<std::decay_t<Node>>()}, tokens_(std::move(tokens))
+        node_type_{utility::type_hash<std::decay_t<Node>>()},
+        source_type_{node_type_}, tokens_(std::move(tokens))
     {
         static_assert(is_tree_node_v<Node>, "Target must be a tree_node");
 
@@ -105,6 +106,20 @@ public:
      */
     [[nodiscard]] std::size_t node_type() const noexcept { return node_type_; }
 
+    /** Returns the hash code for the node that generated this target.
+     *
+     * This is the same as node_type() unless the target has been generated on behalf of another
+     * node e.g. the targets of an aliased node.
+     * @return Source node hash code
+     */
+    [[nodiscard]] std::size_t source_type() const noexcept { return source_type_; }
+
+    /** Set the hash code for the node that generated this target.
+     *
+     * @param type New source node hash code
+     */
+    void source_type(std::size_t type) noexcept { source_type_ = type; }
+
     /** Append a sub-target.
      *
      * The tokens of @a target are appended to this target.
@@ -135,6 +150,7 @@ public:
 
 private:
     std::size_t node_type_;
+    std::size_t source_type_;
     vector<token_type> tokens_;
     vector<parse_target> sub_targets_;
     std::function<utility::unsafe_any(parse_target)> parse_;
-- 
2.43.0


From cdf96aa9030c44276f1751cbc921c437e7e9d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 02/29] fix: value_separator matches the whole separator
 character, not any of its bytes

---
 include/arg_router/policy/value_separator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_router/policy/value_separator.hpp b/include/arg_router/policy/value_separator.hpp
index 91675b1..d10e955 100644
--- a/include/arg_router/policy/value_separator.hpp
+++ b/include/arg_router/policy/value_separator.hpp
@@ -94,7 +94,7 @@ public:
         const auto first_token = *first;
 
         // Find the separator
-        const auto separator_index = first_token.name.find_first_of(value_separator());
+        const auto separator_index = first_token.name.find(value_separator());
         if (separator_index == std::string_view::npos) {
             // If we can't find the separator but the token matches the parent node name, then we
             // need to throw as the user has just forgotten the separator and needs to be told
-- 
2.43.0


From 9755420cb6e5c5ed345d6e540a559301a57b4c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 03/29] fix: code points led by 0xDF and 0xEF are two and three
 bytes long

---
 include/arg_router/utility/utf8/code_point.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8/code_point.hpp b/include/arg_router/utility/utf8/code_point.hpp
index c1dfffd..3144160 100644
--- a/include/arg_router/utility/utf8/code_point.hpp
+++ b/include/arg_router/utility/utf8/code_point.hpp
@@ -162,12 +162,12 @@ private:
 
     // Can't think of a way to do this without branches
     constexpr auto max_2_byte_header = std::uint8_t{0b1101'1111};
-    if (first_byte < max_2_byte_header) {
+    if (first_byte <= max_2_byte_header) {
         return 2;
     }
 
     constexpr auto max_3_byte_header = std::uint8_t{0b1110'1111};
-    if (first_byte < max_3_byte_header) {
+    if (first_byte <= max_3_byte_header) {
         return 3;
     }
 
-- 
2.43.0


From 1fd0af8b5c9be21d5c4e837c7940db206f2d91b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 04/29] fix: UTF-8 iterators do not run past the end of a
 string with a truncated code point

---
 include/arg_router/utility/utf8.hpp            | 6 +++---
 include/arg_router/utility/utf8/code_point.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index a313b75..a156882 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -235,7 +235,7 @@ private:
         // Iterate over each code point and its neighbour, pass their break classes into the rule
         // checker
         for (auto it = code_point::iterator{str_}; it != code_point::iterator{}; ++it) {
-            current_ += code_point::size(*it);
+            current_ += (*it).size();
 
             // If this code point is malformed, then just skip it
             const auto this_cp = code_point::decode(*it);
@@ -499,7 +499,7 @@ private:
                 if (!is_whitespace(cp)) {
                     break;
                 }
-                bytes += code_point::size(cp);
+                bytes += cp.size();
             }
             str_.remove_prefix(bytes);
 
@@ -528,7 +528,7 @@ private:
                 return;
             }
 
-            bytes += code_point::size(*it);
+            bytes += (*it).size();
 
             // If this code point is malformed, then just skip it
             const auto this_cp = code_point::decode(*it);
diff --git a/include/arg_router/utility/utf8/code_point.hpp b/include/arg_router/utility/utf8/code_point.hpp
index 3144160..f3d38a3 100644
--- a/include/arg_router/utility/utf8/code_point.hpp
+++ b/include/arg_router/utility/utf8/code_point.hpp
@@ -325,8 +325,8 @@ public:
      */
     constexpr iterator& operator++() noexcept
     {
-        const auto num_bytes = code_point::size(str_);
-        str_.remove_prefix(num_bytes);
+        // Not code_point::size(..), as the string may end part way through a code point
+        str_.remove_prefix((**this).size());
         return *this;
     }
 
-- 
2.43.0


From 137a5c9297ab23b92b272c18bd4aa7f5628dee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 05/29] fix: line_iterator always advances, even if a character
 is wider than the terminal

---
 include/arg_router/utility/utf8.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index a156882..6b30223 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -520,8 +520,9 @@ private:
             if (column > max_columns_) {
                 if (line_break_column == 0) {
                     // Oh dear, the line has no whitespace in it to break on, so force break on the
-                    // last code point
-                    line_break_byte_ = bytes;
+                    // last code point.  If the first code point doesn't fit at all then use it
+                    // anyway, otherwise the iterator would never advance
+                    line_break_byte_ = (bytes != 0) ? bytes : (*it).size();
                 } else {
                     line_break_byte_ = line_break_byte;
                 }
-- 
2.43.0


From a78788f4f3472cf09e2ccd2696fad42d271dbe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 06/29] fix: short_form_expander ignores a token that is only
 the short form prefix

---
 include/arg_router/policy/short_form_expander.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/short_form_expander.hpp b/include/arg_router/policy/short_form_expander.hpp
index d3ffa80..84323ec 100644
--- a/include/arg_router/policy/short_form_expander.hpp
+++ b/include/arg_router/policy/short_form_expander.hpp
@@ -87,8 +87,9 @@ public:
             return parsing::pre_parse_action::valid_node;
         }
 
-        // Exit early if there's no expansion to be done
-        if (first_token.name.size() == owner_type::short_name().size()) {
+        // Exit early if there's no expansion to be done (the name is empty if the token is just the
+        // prefix)
+        if (first_token.name.size() <= owner_type::short_name().size()) {
             return parsing::pre_parse_action::valid_node;
         }
 
-- 
2.43.0


From 604802fe30050da96e0de37b6e2dc6c8308aef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 07/29] fix: colour_line_formatter does not indent top-level
 runtime help entries

---
 .../arg_router/policy/colour_help_formatter.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/policy/colour_help_formatter.hpp b/include/arg_router/policy/colour_help_formatter.hpp
index 1be3dbe..3eb2010 100644
--- a/include/arg_router/policy/colour_help_formatter.hpp
+++ b/include/arg_router/policy/colour_help_formatter.hpp
@@ -86,14 +86,17 @@ public:
     {
         if (!help_data.label.empty()) {
             const auto indent = depth * Indent;
-            stream << red_colour << std::setw(indent) << ' ' << help_data.label;
+            stream << red_colour;
+            set_gap(stream, indent);
+            stream << help_data.label;
 
             if (!help_data.description.empty()) {
                 const auto gap =
                     desc_start - indent - utility::utf8::terminal_width(help_data.label);
 
                 // Spacing between the end of the args label and start of description
-                stream << green_colour << std::setw(gap) << ' ';
+                stream << green_colour;
+                set_gap(stream, gap);
 
                 // Print the description, breaking if a word will exceed the terminal width
                 for (auto it =
@@ -103,7 +106,8 @@ public:
 
                     // If there's more data to follow, then add the offset
                     if (++it != utility::utf8::line_iterator{}) {
-                        stream << '\n' << std::setw(desc_start) << ' ';
+                        stream << '\n';
+                        set_gap(stream, desc_start);
                     }
                 }
             }
@@ -118,6 +122,13 @@ private:
     {
         return Depth * Indent;
     }
+
+    static void set_gap(std::ostream& stream, std::size_t num_chars)
+    {
+        if (num_chars > 0) {
+            stream << std::setw(num_chars) << ' ';
+        }
+    }
 };
 }  // namespace help_formatter_component
 
-- 
2.43.0


From ebb4bfc990d2e0aeede2a0e445df4b7472ba3f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 08/29] fix: multi_lang roots return the help string of the
 selected root

---
 include/arg_router/multi_lang/root.hpp         | 2 +-
 include/arg_router/multi_lang/root_wrapper.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/multi_lang/root.hpp b/include/arg_router/multi_lang/root.hpp
index e76aaaa..c2c1d4a 100644
--- a/include/arg_router/multi_lang/root.hpp
+++ b/include/arg_router/multi_lang/root.hpp
@@ -194,7 +194,7 @@ public:
      */
     [[nodiscard]] string help() const
     {
-        return std::visit([](const auto& root) { root.help(); }, *root_);
+        return std::visit([](const auto& root) { return root.help(); }, *root_);
     }
 
 private:
diff --git a/include/arg_router/multi_lang/root_wrapper.hpp b/include/arg_router/multi_lang/root_wrapper.hpp
index 8a32fdd..db95f25 100644
--- a/include/arg_router/multi_lang/root_wrapper.hpp
+++ b/include/arg_router/multi_lang/root_wrapper.hpp
@@ -131,7 +131,7 @@ public:
      */
     [[nodiscard]] string help() const
     {
-        return std::visit([](const auto& root) { root.help(); }, *root_);
+        return std::visit([](const auto& root) { return root.help(); }, *root_);
     }
 
 private:
-- 
2.43.0


From ed324029776bd0149f89246efb5688904e508616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 09/29] fix: default_help_formatter_t is a policy for any
 addendum formatter

---
 include/arg_router/policy/default_help_formatter.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/policy/default_help_formatter.hpp b/include/arg_router/policy/default_help_formatter.hpp
index 6e91d37..251caf7 100644
--- a/include/arg_router/policy/default_help_formatter.hpp
+++ b/include/arg_router/policy/default_help_formatter.hpp
@@ -374,9 +374,12 @@ constexpr auto default_help_formatter = default_help_formatter_t<>{};
 template <typename Indent,
           typename DescColumnOffset,
           typename LineFormatter,
-          typename PreambleFormatter>
-struct is_policy<
-    default_help_formatter_t<Indent, DescColumnOffset, LineFormatter, PreambleFormatter>> :
-    std::true_type {
+          typename PreambleFormatter,
+          typename AddendumFormatter>
+struct is_policy<default_help_formatter_t<Indent,
+                                          DescColumnOffset,
+                                          LineFormatter,
+                                          PreambleFormatter,
+                                          AddendumFormatter>> : std::true_type {
 };
 }  // namespace arg_router::policy
-- 
2.43.0


From 92689740ef5d7b85561c5e4d17bb3e3ac9fafdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 10/29] fix: help for a runtime disabled mode reports it as
 unknown, instead of reading past the end of the tokens

---
 include/arg_router/help.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/arg_router/help.hpp b/include/arg_router/help.hpp
index ec53378..9916c9c 100644
--- a/include/arg_router/help.hpp
+++ b/include/arg_router/help.hpp
@@ -237,12 +237,6 @@ private:
                                  const Node& node,
                                  const TargetFn& fn)
     {
-        if constexpr (traits::has_runtime_enabled_method_v<Node>) {
-            if (!node.runtime_enabled()) {
-                throw multi_lang_exception{error_code::unknown_argument, tokens.front()};
-            }
-        }
-
         if (tokens.empty()) {
             fn(node);
             return;
@@ -263,6 +257,12 @@ private:
                 const auto token = parsing::get_token_type(child, tokens.front().name);
                 if (!result && parsing::match<child_type>(token)) {
                     result = true;
+                    if constexpr (traits::has_runtime_enabled_method_v<child_type>) {
+                        if (!child.runtime_enabled()) {
+                            throw multi_lang_exception{error_code::unknown_argument,
+                                                       tokens.front()};
+                        }
+                    }
                     tokens.erase(tokens.begin());
                     find_help_target(tokens, child, fn);
                 }
-- 
2.43.0


From 8576a0f632a393fda2954b4ce6cc4e4d32473a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 11/29] fix: an alias of an alias sets the aliased arguments

---
 include/arg_router/policy/alias.hpp | 32 ++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/arg_router/policy/alias.hpp b/include/arg_router/policy/alias.hpp
index 134dce0..bf86d6f 100644
--- a/include/arg_router/policy/alias.hpp
+++ b/include/arg_router/policy/alias.hpp
@@ -78,8 +78,8 @@ public:
 
         // Perform all the compile-time checking
         constexpr auto count = node_fixed_count<node_type>();
+        using targets = typename alias_targets<aliased_policies_type, mode_type>::type;
         {
-            using targets = typename alias_targets<aliased_policies_type, mode_type>::type;
             static_assert(cyclic_dependency_checker<targets, mode_type>::value,
                           "Cyclic dependency detected");
 
@@ -119,12 +119,13 @@ public:
 
         // Now do the runtime target building
         const auto visitor = [&](const auto& current, [[maybe_unused]] const auto&... parents) {
-            using policies_type = typename std::decay_t<decltype(current)>::policies_type;
+            using current_type = std::decay_t<decltype(current)>;
 
-            using intersection =
-                boost::mp11::mp_set_intersection<aliased_policies_type, policies_type>;
+            // Aliases have no value of their own, so if any of the targets are an alias then they
+            // need to be replaced with _their_ targets
+            using resolved = typename resolved_targets<targets, mode_type>::type;
 
-            if constexpr ((std::tuple_size_v<intersection>) > 0) {
+            if constexpr (boost::mp11::mp_contains<resolved, current_type>::value) {
                 auto target_tokens = vector<parsing::token_type>{};
                 target_tokens.reserve(count);
 
@@ -207,6 +208,27 @@ private:
                       "names from the same node?");
     };
 
+    // Recursively replaces any nodes in NodesTuple that are themselves aliases, with the nodes they
+    // are an alias of.  Must only be used after a cyclic dependency check
+    template <typename NodesTuple, typename ModeType>
+    struct resolved_targets {
+        template <typename Node>
+        using is_alias = algorithm::has_specialisation<alias_t, typename Node::policies_type>;
+
+        template <typename Node>
+        using nested_targets = typename resolved_targets<
+            typename alias_targets<typename Node::aliased_policies_type, ModeType>::type,
+            ModeType>::type;
+
+        template <typename Node>
+        using resolve = boost::mp11::
+            mp_eval_if_not<is_alias<Node>, std::tuple<Node>, nested_targets, Node>;
+
+        using type = boost::mp11::mp_unique<boost::mp11::mp_append<
+            std::tuple<>,
+            boost::mp11::mp_flatten<boost::mp11::mp_transform<resolve, NodesTuple>>>>;
+    };
+
     template <typename AliasNodesTuple, typename ModeType>
     struct cyclic_dependency_checker {
         // For each alias, find all of its alias, stop when there are no more or if you hit this
-- 
2.43.0


From 8f4097fe2f3b4c0812b6c9efb809c7b3a65c2dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 12/29] fix: a runtime disabled anonymous mode is not parsed

---
 include/arg_router/mode.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index bbce268..4ef4d23 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -273,6 +273,14 @@ private:
             }
         }
 
+        // There's no label for an anonymous mode to delegate to the default implementation for, so
+        // check if it has been disabled here
+        if constexpr (is_anonymous && traits::has_runtime_enabled_method_v<mode_t>) {
+            if (!this->runtime_enabled()) {
+                return {};
+            }
+        }
+
         if (!pre_parse_data.validator()(this_mode, parents...)) {
             return {};
         }
-- 
2.43.0


From cd35d1dd0d981336f08868ec71916452b6056551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 13/29] fix: an alias does not set runtime disabled arguments

---
 include/arg_router/policy/alias.hpp | 37 +++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/alias.hpp b/include/arg_router/policy/alias.hpp
index bf86d6f..8a0f0ec 100644
--- a/include/arg_router/policy/alias.hpp
+++ b/include/arg_router/policy/alias.hpp
@@ -113,6 +113,27 @@ public:
             }
         }
 
+        const auto& mode =
+            std::get<mode_data::index::value>(std::tuple{std::cref(parents)...}).get();
+
+        // If all of the targets have been disabled, then so has this
+        {
+            auto enabled = false;
+            const auto visitor = [&](const auto& current, const auto&...) {
+                using current_type = std::decay_t<decltype(current)>;
+                using resolved = typename resolved_targets<targets, mode_type>::type;
+
+                if constexpr (boost::mp11::mp_contains<resolved, current_type>::value) {
+                    enabled = enabled || is_enabled(current);
+                }
+            };
+            utility::tree_recursor(visitor, mode);
+
+            if (!enabled) {
+                return parsing::pre_parse_action::skip_node;
+            }
+        }
+
         // Attempt a transfer so we can guarantee that the original tokens are in the processed
         // container (this is a no-op if they already are)
         tokens.transfer(tokens.begin() + count);
@@ -126,6 +147,10 @@ public:
             using resolved = typename resolved_targets<targets, mode_type>::type;
 
             if constexpr (boost::mp11::mp_contains<resolved, current_type>::value) {
+                if (!is_enabled(current)) {
+                    return;
+                }
+
                 auto target_tokens = vector<parsing::token_type>{};
                 target_tokens.reserve(count);
 
@@ -140,8 +165,6 @@ public:
                                        parents...});
             }
         };
-        const auto& mode =
-            std::get<mode_data::index::value>(std::tuple{std::cref(parents)...}).get();
         utility::tree_recursor(visitor, mode);
 
         // Now remove the original tokens as they refer to the aliased node
@@ -167,6 +190,16 @@ private:
     static_assert(boost::mp11::mp_all_of<aliased_policies_type, policy_checker>::value,
                   "All parameters must provide a long and/or short form name");
 
+    template <typename NodeType>
+    [[nodiscard]] static bool is_enabled([[maybe_unused]] const NodeType& node) noexcept
+    {
+        if constexpr (traits::has_runtime_enabled_method_v<NodeType>) {
+            return node.runtime_enabled();
+        } else {
+            return true;
+        }
+    }
+
     template <typename NodeType>
     [[nodiscard]] constexpr static std::size_t node_fixed_count() noexcept
     {
-- 
2.43.0


From e2c52b9c5283d2dd55312e9dc9741a12a4f234e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 14/29] fix: child_must_not_have_policy rejects any child with
 the policy, not only when all of them have it

---
 include/arg_router/policy/validator.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/arg_router/policy/validator.hpp b/include/arg_router/policy/validator.hpp
index db925ed..f365900 100644
--- a/include/arg_router/policy/validator.hpp
+++ b/include/arg_router/policy/validator.hpp
@@ -382,15 +382,24 @@ struct child_must_have_policy {
 /** A rule condition that checks that every child under @a T does not have a particular policy.
  *
  * @tparam Policy Despecialised policy to check for
+ * @tparam ExcludedNodes Despecialised nodes that are allowed to have the policy because it is
+ * built into them, unless all the children have it
  */
-template <template <typename...> typename Policy>
+template <template <typename...> typename Policy, template <typename...> typename... ExcludedNodes>
 struct child_must_not_have_policy {
+    template <typename Child>
+    using child_checker = boost::mp11::mp_bool<
+        !(traits::is_specialisation_of_v<Child, ExcludedNodes> || ...) &&
+        algorithm::has_specialisation_v<Policy, typename Child::policies_type>>;
+
     template <typename T, typename...>
     constexpr static void check() noexcept
     {
         if constexpr ((std::tuple_size_v<typename T::children_type>) > 0) {
-            static_assert(!basic_child_must_have_policy<Policy>::template value<T>,
-                          "All children of T must not have this policy");
+            static_assert(
+                !basic_child_must_have_policy<Policy>::template value<T> &&
+                    boost::mp11::mp_none_of<typename T::children_type, child_checker>::value,
+                "All children of T must not have this policy");
         }
     }
 };
@@ -693,13 +702,13 @@ constexpr auto default_validator = validator<
                                   policy::multi_stage_value,
                                   policy::validation::validator>,
            child_must_not_have_policy<policy::required_t>,
-           child_must_not_have_policy<policy::default_value>,
+           child_must_not_have_policy<policy::default_value, flag_t>,
            parent_types<parent_index_pair_type<0, mode_t>>>,
     // alias_group
     rule_q<common_rules::despecialised_any_of_rule<dependency::one_of_t, dependency::alias_group_t>,
            must_not_have_policies<policy::no_result_value, policy::validation::validator>,
            child_must_not_have_policy<policy::required_t>,
-           child_must_not_have_policy<policy::default_value>,
+           child_must_not_have_policy<policy::default_value, flag_t>,
            parent_types<parent_index_pair_type<0, mode_t>>>,
     // Mode
     rule_q<common_rules::despecialised_any_of_rule<mode_t>,
-- 
2.43.0


From 8cb82f460baaac841d55477744e6cfe3e287bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 15/29] fix: a leading token end marker gives its node no
 tokens, even if the maximum count is bounded

---
 include/arg_router/policy/min_max_count.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/min_max_count.hpp b/include/arg_router/policy/min_max_count.hpp
index 1e8a5d7..136c855 100644
--- a/include/arg_router/policy/min_max_count.hpp
+++ b/include/arg_router/policy/min_max_count.hpp
@@ -109,8 +109,12 @@ public:
                                         parsing::node_token_type<owner_type>()};
         }
 
-        // Transfer any remaining up to the maximum count
-        tokens.transfer(tokens.begin() + std::min(mx_count - 1, num_tokens - 1));
+        // Transfer any remaining up to the maximum count.  There may not be any tokens at all if the
+        // first is a token end marker
+        const auto count = std::min(mx_count, num_tokens);
+        if (count > 0) {
+            tokens.transfer(tokens.begin() + (count - 1));
+        }
 
         return parsing::pre_parse_action::valid_node;
     }
-- 
2.43.0


From a4bd4ebe0f0509e603d7c9056423096e0cbed715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 16/29] fix: default_validator rejects modes that are
 unreachable because they follow an anonymous mode

---
 include/arg_router/policy/validator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arg_router/policy/validator.hpp b/include/arg_router/policy/validator.hpp
index f365900..066a699 100644
--- a/include/arg_router/policy/validator.hpp
+++ b/include/arg_router/policy/validator.hpp
@@ -543,6 +543,11 @@ struct anonymous_mode_must_be_at_end {
 
         if constexpr (has_anonymous_mode_child) {
             node_types_must_be_at_end<ModeTypes...>::template check<T>();
+
+            // An anonymous mode consumes all the tokens, so any following modes are unreachable
+            static_assert(
+                is_anonymous_mode<boost::mp11::mp_back<typename T::children_type>>::value,
+                "Anonymous mode must be at the end of child list for a node");
         }
     }
 };
-- 
2.43.0


From 8a37b4d3ab993b23c08a08047261c9a823861f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 17/29] fix: default_validator rejects sibling modes with the
 same name

---
 include/arg_router/policy/validator.hpp | 32 +++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/include/arg_router/policy/validator.hpp b/include/arg_router/policy/validator.hpp
index 066a699..753d57a 100644
--- a/include/arg_router/policy/validator.hpp
+++ b/include/arg_router/policy/validator.hpp
@@ -552,6 +552,36 @@ struct anonymous_mode_must_be_at_end {
     }
 };
 
+/** A rule condition that checks that any children of @a T that are modes have different names.
+ *
+ * @tparam ModeTypes Pack of types that are considered modes
+ */
+template <template <typename...> typename... ModeTypes>
+struct child_modes_must_have_unique_names {
+    static_assert(sizeof...(ModeTypes), "Must be at least one mode type");
+
+    template <typename T>
+    using is_none_name = traits::is_specialisation_of<T, policy::none_name_t>;
+
+    template <typename T>
+    using is_named_mode = boost::mp11::mp_bool<
+        (traits::is_specialisation_of_v<T, ModeTypes> || ...) &&
+        algorithm::has_specialisation_v<policy::none_name_t, typename T::policies_type>>;
+
+    template <typename T>
+    using name = boost::mp11::mp_filter<is_none_name, typename T::policies_type>;
+
+    template <typename T, typename...>
+    constexpr static void check() noexcept
+    {
+        using names = boost::mp11::mp_transform<
+            name,
+            boost::mp11::mp_filter<is_named_mode, typename T::children_type>>;
+
+        static_assert(boost::mp11::mp_is_set<names>::value, "Child modes must have unique names");
+    }
+};
+
 /** A rule condition that checks that child list-like nodes have a fixed value count if not at the
  * end of the policies list.
  *
@@ -722,6 +752,7 @@ constexpr auto default_validator = validator<
                                   policy::runtime_enable_required,
                                   policy::alias_t,
                                   policy::dependent_t>,
+           child_modes_must_have_unique_names<mode_t>,
            node_types_must_be_at_end<positional_arg_t>,
            list_like_nodes_must_have_fixed_count_if_not_at_end,
            parent_types<parent_index_pair_type<0, root_t>, parent_index_pair_type<0, mode_t>>>,
@@ -742,6 +773,7 @@ constexpr auto default_validator = validator<
                                   policy::runtime_enable_required>,
            child_must_not_have_policy<policy::required_t>,
            child_must_not_have_policy<policy::alias_t>,
+           child_modes_must_have_unique_names<arg_router::mode_t>,
            single_anonymous_mode<arg_router::mode_t>,
            anonymous_mode_must_be_at_end<arg_router::mode_t>>>{};
 }  // namespace validation
-- 
2.43.0


From 98d97bc6bfa188cd2313a7a972d60a78d0b1b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 18/29] fix: a one_of can have children with the same
 value_type

---
 include/arg_router/mode.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index 4ef4d23..1cc85f9 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include "arg_router/dependency/one_of.hpp"
 #include "arg_router/parsing/unknown_argument_handling.hpp"
 #include "arg_router/policy/description.hpp"
 #include "arg_router/policy/error_name.hpp"
@@ -489,7 +490,24 @@ private:
 
                 using result_type = decltype(std::declval<ChildType>().parse(
                     std::declval<parsing::parse_target>()));
-                result = std::move(parse_result.get<result_type>());
+                using value_type = typename optional_result_type::value_type;
+                using owner_type = std::tuple_element_t<I, children_type>;
+
+                auto& value = parse_result.get<result_type>();
+                if constexpr (traits::is_specialisation_of_v<owner_type, dependency::one_of_t> &&
+                              traits::is_specialisation_of_v<value_type, std::variant>) {
+                    // Multiple children can have the same value_type, so the alternative must be
+                    // selected by index
+                    using value_children =
+                        boost::mp11::mp_remove_if<typename owner_type::children_type,
+                                                  policy::has_no_result_value>;
+                    constexpr auto index =
+                        boost::mp11::mp_find<value_children, ChildType>::value;
+
+                    result.emplace(std::in_place_index<index>, std::move(value));
+                } else {
+                    result = std::move(value);
+                }
             }
         }
     }
-- 
2.43.0


From 7ae5ecf59be8dbc7e9b6fa98ea86efc7edf5ff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 19/29] fix: default_validator rejects identical sibling nodes

---
 include/arg_router/policy/validator.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/arg_router/policy/validator.hpp b/include/arg_router/policy/validator.hpp
index 753d57a..80b9fbe 100644
--- a/include/arg_router/policy/validator.hpp
+++ b/include/arg_router/policy/validator.hpp
@@ -552,6 +552,19 @@ struct anonymous_mode_must_be_at_end {
     }
 };
 
+/** A rule condition that checks that the children of @a T are different types.
+ *
+ * Nodes are identified by their type, so identical siblings could not be told apart when parsing.
+ */
+struct children_must_be_unique {
+    template <typename T, typename...>
+    constexpr static void check() noexcept
+    {
+        static_assert(boost::mp11::mp_is_set<typename T::children_type>::value,
+                      "Child nodes must be unique");
+    }
+};
+
 /** A rule condition that checks that any children of @a T that are modes have different names.
  *
  * @tparam ModeTypes Pack of types that are considered modes
@@ -738,12 +751,14 @@ constexpr auto default_validator = validator<
                                   policy::validation::validator>,
            child_must_not_have_policy<policy::required_t>,
            child_must_not_have_policy<policy::default_value, flag_t>,
+           children_must_be_unique,
            parent_types<parent_index_pair_type<0, mode_t>>>,
     // alias_group
     rule_q<common_rules::despecialised_any_of_rule<dependency::one_of_t, dependency::alias_group_t>,
            must_not_have_policies<policy::no_result_value, policy::validation::validator>,
            child_must_not_have_policy<policy::required_t>,
            child_must_not_have_policy<policy::default_value, flag_t>,
+           children_must_be_unique,
            parent_types<parent_index_pair_type<0, mode_t>>>,
     // Mode
     rule_q<common_rules::despecialised_any_of_rule<mode_t>,
@@ -752,6 +767,7 @@ constexpr auto default_validator = validator<
                                   policy::runtime_enable_required,
                                   policy::alias_t,
                                   policy::dependent_t>,
+           children_must_be_unique,
            child_modes_must_have_unique_names<mode_t>,
            node_types_must_be_at_end<positional_arg_t>,
            list_like_nodes_must_have_fixed_count_if_not_at_end,
@@ -773,6 +789,7 @@ constexpr auto default_validator = validator<
                                   policy::runtime_enable_required>,
            child_must_not_have_policy<policy::required_t>,
            child_must_not_have_policy<policy::alias_t>,
+           children_must_be_unique,
            child_modes_must_have_unique_names<arg_router::mode_t>,
            single_anonymous_mode<arg_router::mode_t>,
            anonymous_mode_must_be_at_end<arg_router::mode_t>>>{};
-- 
2.43.0


From a8527aa3ba17ffaf7c94904d81c34e704852806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 20/29] fix: integers rendered at compile time keep their inner
 and trailing zeros

---
 .../utility/compile_time_string.hpp           | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/arg_router/utility/compile_time_string.hpp b/include/arg_router/utility/compile_time_string.hpp
index 4302b3a..45d6e78 100644
--- a/include/arg_router/utility/compile_time_string.hpp
+++ b/include/arg_router/utility/compile_time_string.hpp
@@ -242,24 +242,23 @@ struct convert_integral_to_cts {
 private:
     static_assert(std::is_integral_v<decltype(Value)>, "Value must be an integral");
 
-    template <typename Str, auto NewValue>
+    template <typename Str, auto NewValue, auto NumDigits>
     [[nodiscard]] constexpr static auto build() noexcept
     {
-        constexpr auto num_digits = math::num_digits(NewValue);
-        constexpr auto power10 = math::pow<10>(num_digits - 1);
+        constexpr auto power10 = math::pow<10>(NumDigits - 1);
         constexpr auto digit = NewValue / power10;
 
         using digit_str = str<'0' + digit>;
 
-        if constexpr (num_digits != 1) {
+        if constexpr (NumDigits != 1) {
             constexpr auto next_value = NewValue % power10;
-            return build<typename Str::template append_t<digit_str>, next_value>();
+            return build<typename Str::template append_t<digit_str>, next_value, NumDigits - 1>();
         } else {
             return typename Str::template append_t<digit_str>{};
         }
     }
 
-    using digit_str = decltype(build<str<>, math::abs(Value)>());
+    using digit_str = decltype(build<str<>, math::abs(Value), math::num_digits(Value)>());
 
 public:
     using type = std::conditional_t<(Value < 0), str<'-'>::template append_t<digit_str>, digit_str>;
@@ -452,24 +451,24 @@ struct convert_integral_to_cts {
 private:
     static_assert(std::is_integral_v<decltype(Value)>, "Value must be an integral");
 
-    template <typename Str, auto NewValue>
+    template <typename Str, auto NewValue, auto NumDigits>
     [[nodiscard]] constexpr static auto build() noexcept
     {
-        constexpr auto num_digits = math::num_digits(NewValue);
-        constexpr auto power10 = math::pow<10>(num_digits - 1);
+        constexpr auto power10 = math::pow<10>(NumDigits - 1);
         constexpr auto digit = NewValue / power10;
 
         using digit_str = typename Str::template append_t<compile_time_string<'0' + digit>>;
 
-        if constexpr (num_digits != 1) {
+        if constexpr (NumDigits != 1) {
             constexpr auto next_value = NewValue % power10;
-            return build<digit_str, next_value>();
+            return build<digit_str, next_value, NumDigits - 1>();
         } else {
             return digit_str{};
         }
     }
 
-    using digit_str = decltype(build<compile_time_string<>, math::abs(Value)>());
+    using digit_str = decltype(
+        build<compile_time_string<>, math::abs(Value), math::num_digits(Value)>());
 
 public:
     using type = std::conditional_t<(Value < 0),
-- 
2.43.0


From 99f1f0ffc89a83109978e839034d7a7857c2c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 21/29] fix: a runtime-disabled node's value separator no
 longer rejects command lines on its behalf

---
 include/arg_router/policy/runtime_enable.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/runtime_enable.hpp b/include/arg_router/policy/runtime_enable.hpp
index b7276f1..93731f0 100644
--- a/include/arg_router/policy/runtime_enable.hpp
+++ b/include/arg_router/policy/runtime_enable.hpp
@@ -24,8 +24,12 @@ template <typename T = void>
 class runtime_enable
 {
 public:
-    /** Policy priority. */
-    constexpr static auto priority = std::size_t{800};
+    /** Policy priority.
+     *
+     * Higher than any token processing policy, otherwise one of those could fail on behalf of a
+     * disabled node.
+     */
+    constexpr static auto priority = std::size_t{1100};
 
     /** Constructor.
      *
-- 
2.43.0


From e073ff6a969ca1be59ca80c5ee3474c0d613408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 22/29] fix: user-perceived characters never join a control
 with its neighbour

---
 .../utility/utf8/grapheme_cluster_break.hpp   | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/arg_router/utility/utf8/grapheme_cluster_break.hpp b/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
index e5e74f5..ad5bb75 100644
--- a/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
+++ b/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
@@ -57,6 +57,20 @@ template <std::size_t N>
            (next_class == grapheme_cluster_break_class::LF);
 }
 
+/** Rule GB4 and GB5, always break before and after controls.
+ *
+ * From https://www.unicode.org/reports/tr29/#Grapheme_Cluster_Boundary_Rules.  Rules that would
+ * otherwise join any class to its neighbour need to check this.
+ * @param break_class Class to test
+ * @return True if @a break_class is a control, carriage return, or line feed
+ */
+[[nodiscard]] constexpr bool GB4_5(grapheme_cluster_break_class break_class) noexcept
+{
+    return (break_class == grapheme_cluster_break_class::control) ||
+           (break_class == grapheme_cluster_break_class::CR) ||
+           (break_class == grapheme_cluster_break_class::LF);
+}
+
 /** Rule GB6, do not break Hangul syllable sequences.
  *
  * From https://www.unicode.org/reports/tr29/#Grapheme_Cluster_Boundary_Rules.
@@ -127,12 +141,12 @@ template <std::size_t N>
  * @return True if you should not break between these break classes
  */
 template <std::size_t N>
-[[nodiscard]] constexpr bool GB9(
-    [[maybe_unused]] const std::array<grapheme_cluster_break_class, N>& trailing_window,
-    grapheme_cluster_break_class next_class) noexcept
+[[nodiscard]] constexpr bool GB9(const std::array<grapheme_cluster_break_class, N>& trailing_window,
+                                 grapheme_cluster_break_class next_class) noexcept
 {
-    return (next_class == grapheme_cluster_break_class::extend) ||
-           (next_class == grapheme_cluster_break_class::ZWJ);
+    static_assert(N > 0, "Trailing window must be at least 1 element");
+    return !GB4_5(trailing_window[0]) && ((next_class == grapheme_cluster_break_class::extend) ||
+                                          (next_class == grapheme_cluster_break_class::ZWJ));
 };
 
 /** Rule GB9a, do not break before SpacingMarks, or after Prepend characters.
@@ -146,10 +160,11 @@ template <std::size_t N>
  */
 template <std::size_t N>
 [[nodiscard]] constexpr bool GB9a(
-    [[maybe_unused]] const std::array<grapheme_cluster_break_class, N>& trailing_window,
+    const std::array<grapheme_cluster_break_class, N>& trailing_window,
     grapheme_cluster_break_class next_class) noexcept
 {
-    return next_class == grapheme_cluster_break_class::spacing_mark;
+    static_assert(N > 0, "Trailing window must be at least 1 element");
+    return !GB4_5(trailing_window[0]) && (next_class == grapheme_cluster_break_class::spacing_mark);
 };
 
 /** Rule GB9b, do not break before SpacingMarks, or after Prepend characters.
@@ -164,10 +179,10 @@ template <std::size_t N>
 template <std::size_t N>
 [[nodiscard]] constexpr bool GB9b(
     const std::array<grapheme_cluster_break_class, N>& trailing_window,
-    [[maybe_unused]] grapheme_cluster_break_class next_class) noexcept
+    grapheme_cluster_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return trailing_window[0] == grapheme_cluster_break_class::prepend;
+    return (trailing_window[0] == grapheme_cluster_break_class::prepend) && !GB4_5(next_class);
 };
 
 /** Rule GB11, do not break within emoji modifier sequences or emoji zwj sequences.
-- 
2.43.0


From 2ee6d3ef910ac57556e1a527d08aac7ea73d296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 23/29] fix: a joiner only joins a pictograph to another
 pictograph

---
 .../utility/utf8/grapheme_cluster_break.hpp         | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8/grapheme_cluster_break.hpp b/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
index ad5bb75..e12b355 100644
--- a/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
+++ b/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
@@ -200,8 +200,17 @@ template <std::size_t N>
     grapheme_cluster_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return (trailing_window[0] == grapheme_cluster_break_class::ZWJ) &&
-           (next_class == grapheme_cluster_break_class::extended_pictographic);
+    if ((trailing_window[0] != grapheme_cluster_break_class::ZWJ) ||
+        (next_class != grapheme_cluster_break_class::extended_pictographic)) {
+        return false;
+    }
+
+    // The joiner must follow a pictograph, with only extending characters between them
+    auto i = std::size_t{1};
+    while ((i < N) && (trailing_window[i] == grapheme_cluster_break_class::extend)) {
+        ++i;
+    }
+    return (i == N) || (trailing_window[i] == grapheme_cluster_break_class::extended_pictographic);
 };
 
 /** Rule GB12 and GB13, do not break within emoji flag sequences.
-- 
2.43.0


From 840c9eeef5dbd816187fd7b54a9aa51e162024a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 24/29] fix: long runs of flags are split into whole flags

---
 include/arg_router/utility/utf8.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index 6b30223..276e9a0 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -232,6 +232,10 @@ private:
             return;
         }
 
+        // The rules never look behind the start of the current cluster.  Forgetting what preceded it
+        // keeps runs of flags that are longer than the window aligned
+        fill_trailing_window();
+
         // Iterate over each code point and its neighbour, pass their break classes into the rule
         // checker
         for (auto it = code_point::iterator{str_}; it != code_point::iterator{}; ++it) {
-- 
2.43.0


From 909eac71f4356e552e5c8240fabcf563ea78bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 25/29] fix: wide combining marks occupy no terminal column

---
 include/arg_router/utility/utf8.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index 276e9a0..6dcaddc 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -331,11 +331,11 @@ private:
             continue;
         }
 
-        if (detail::find_range(double_width_table, *cp)) {
-            width += 2;
-        } else if (!detail::find_range(zero_width_table, *cp)) {
-            width += 1;
+        // Some combining marks are listed as wide too, they occupy no column of their own
+        if (detail::find_range(zero_width_table, *cp)) {
+            continue;
         }
+        width += detail::find_range(double_width_table, *cp) ? 2 : 1;
     }
 
     return width;
-- 
2.43.0


From 3ff760d33a33faa427e58cf00b8785079c5fa640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 26/29] fix: a negative number is no value of an unsigned type

---
 include/arg_router/parsing/global_parser.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index 75bcea4..0705782 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -40,7 +40,12 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
         using namespace std::string_view_literals;
 
         auto result = T{};
-        if (!boost::conversion::try_lexical_convert(token, result)) {
+        auto success = boost::conversion::try_lexical_convert(token, result);
+        if constexpr (std::is_unsigned_v<T> && !std::is_same_v<T, char>) {
+            // Negative numbers would wrap around otherwise
+            success = success && (token.front() != '-');
+        }
+        if (!success) {
             throw multi_lang_exception{error_code::failed_to_parse,
                                        parsing::token_type{parsing::prefix_type::none, token}};
         }
-- 
2.43.0


From 074e80756242ad9c863aa6ad5bddc631a1d2860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:29 +0000
Subject: [PATCH 27/29] fix: 8-bit integers are parsed as numbers, like the
 other integers

---
 include/arg_router/parsing/global_parser.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index 0705782..d5d6717 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -10,6 +10,8 @@
 
 #include <boost/lexical_cast/try_lexical_convert.hpp>
 
+#include <limits>
+
 namespace arg_router
 {
 /** Global parsing struct.
@@ -39,18 +41,25 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
         using namespace utility::string_view_ops;
         using namespace std::string_view_literals;
 
-        auto result = T{};
+        // The 8-bit integers are parsed as numbers, not as the character with that code
+        constexpr auto is_byte = std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>;
+
+        auto result = std::conditional_t<is_byte, int, T>{};
         auto success = boost::conversion::try_lexical_convert(token, result);
         if constexpr (std::is_unsigned_v<T> && !std::is_same_v<T, char>) {
             // Negative numbers would wrap around otherwise
             success = success && (token.front() != '-');
         }
+        if constexpr (is_byte) {
+            success = success && (result >= std::numeric_limits<T>::min()) &&
+                      (result <= std::numeric_limits<T>::max());
+        }
         if (!success) {
             throw multi_lang_exception{error_code::failed_to_parse,
                                        parsing::token_type{parsing::prefix_type::none, token}};
         }
 
-        return result;
+        return static_cast<T>(result);
     }
 };
 
-- 
2.43.0


From dba40f0b50e8b924070d276065b8dcfeb4116416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 28/29] fix: a command line without even a program name is an
 empty one

---
 include/arg_router/root.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/root.hpp b/include/arg_router/root.hpp
index d91510a..e4c8900 100644
--- a/include/arg_router/root.hpp
+++ b/include/arg_router/root.hpp
@@ -10,6 +10,7 @@
 #include "arg_router/policy/no_result_value.hpp"
 #include "arg_router/tree_node.hpp"
 
+#include <algorithm>
 #include <utility>
 #include <variant>
 
@@ -227,8 +228,8 @@ public:
      */
     void parse(int argc, char** argv) const
     {
-        // Skip the program name
-        parse(&argv[1], &argv[argc]);
+        // Skip the program name, which may be missing
+        parse(argv + std::min(argc, 1), argv + argc);
     }
 
     /** Generates a root-level help string and writes it into @a stream.
-- 
2.43.0


From c48422bddb95b6b55e98980ae1f777d4a4f596ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:31 +0000
Subject: [PATCH 29/29] fix: an optional string could not be parsed

std::optional of a type constructible from a string view matched two parsers, so an argument of
that type did not compile.
---
 include/arg_router/parsing/global_parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index d5d6717..5056bfe 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -64,7 +64,9 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
 };
 
 template <typename T>
-struct parser<T, typename std::enable_if_t<std::is_constructible_v<T, std::string_view>>> {
+struct parser<T,
+              typename std::enable_if_t<std::is_constructible_v<T, std::string_view> &&
+                                        !traits::is_specialisation_of_v<T, std::optional>>> {
     [[nodiscard]] static T parse(std::string_view token) { return T{token}; }
 };
 
-- 
2.43.0

