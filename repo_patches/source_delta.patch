From bf2502d7f41ac8dffc2133c5c48e150006647f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:01 +0000
Subject: [PATCH 01/48] fix: console::compare said a console is less than
 itself

---
 TameParse/Compiler/console.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Compiler/console.h b/TameParse/Compiler/console.h
index 7e53a1a..e45e156 100644
--- a/TameParse/Compiler/console.h
+++ b/TameParse/Compiler/console.h
@@ -51,7 +51,7 @@ namespace compiler {
 
         /// \brief Comparison function so we can use consoles in a container
         inline static bool compare(const console* a, const console* b) {
-            if (a == b)     return true;
+            if (a == b)     return false;
             if (a == NULL)  return true;
             if (b == NULL)  return false;
             
-- 
2.43.0


From fd9e51fca3db5ff5fd3988bbf7e0a8acf42ab038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:01 +0000
Subject: [PATCH 02/48] fix: weak and strong accept actions compared as equal
 although one is ordered before the other

---
 TameParse/Compiler/lexer_stage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/lexer_stage.cpp b/TameParse/Compiler/lexer_stage.cpp
index 27ba9f5..447c75d 100644
--- a/TameParse/Compiler/lexer_stage.cpp
+++ b/TameParse/Compiler/lexer_stage.cpp
@@ -101,7 +101,10 @@ namespace compiler {
             if (!accept_action::operator==(compareTo)) return false;
             
             // Unit types should be the same otherwise
-            return m_UnitType == compareToLanguageAction->m_UnitType;
+            if (m_UnitType != compareToLanguageAction->m_UnitType) return false;
+
+            // As should the 'weakness' (which takes part in the ordering)
+            return m_IsWeak == compareToLanguageAction->m_IsWeak;
         }
     };
 
-- 
2.43.0


From d7ee099d55e582ec8b3353dad524e5d3be7d9830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:01 +0000
Subject: [PATCH 03/48] fix: transition::operator<= (and >) disagreed with
 operator<

---
 TameParse/Dfa/transition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Dfa/transition.cpp b/TameParse/Dfa/transition.cpp
index 462731f..478f5af 100644
--- a/TameParse/Dfa/transition.cpp
+++ b/TameParse/Dfa/transition.cpp
@@ -50,5 +50,5 @@ bool transition::operator<(const transition& compareTo) const {
 
 /// \brief Orders this symbol set
 bool transition::operator<=(const transition& compareTo) const {
-    return m_NewState < compareTo.m_NewState || m_SymbolSet < compareTo.m_SymbolSet || operator==(compareTo);
+    return !(compareTo < *this);
 }
-- 
2.43.0


From 6e3f0a49fb23ac8a17f8443129bd08efd1e22c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:01 +0000
Subject: [PATCH 04/48] fix: lr1_item::operator> was true for equal items

---
 TameParse/Lr/lr_item.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Lr/lr_item.h b/TameParse/Lr/lr_item.h
index 4afb849..1014e68 100644
--- a/TameParse/Lr/lr_item.h
+++ b/TameParse/Lr/lr_item.h
@@ -226,7 +226,7 @@ namespace lr {
         inline lr1_item* clone() const { return new lr1_item(*this); }
         
         inline bool operator!=(const lr1_item& compareTo) const { return !operator==(compareTo); }
-        inline bool operator>(const lr1_item& compareTo) const { return !operator<(compareTo); }
+        inline bool operator>(const lr1_item& compareTo) const { return compareTo.operator<(*this); }
         inline bool operator<=(const lr1_item& compareTo) const { return operator<(compareTo) || operator==(compareTo); }
         inline bool operator>=(const lr1_item& compareTo) const { return !operator<(compareTo) || operator==(compareTo); }
         
-- 
2.43.0


From 52497b52406a6bd790c1cee598935771c606c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:01 +0000
Subject: [PATCH 05/48] fix: astnode::operator< could order two nodes before
 each other

---
 TameParse/Util/astnode.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/TameParse/Util/astnode.cpp b/TameParse/Util/astnode.cpp
index 6408be1..379caa0 100644
--- a/TameParse/Util/astnode.cpp
+++ b/TameParse/Util/astnode.cpp
@@ -64,8 +64,11 @@ astnode* astnode::clone() const {
 bool astnode::operator<(const astnode& compareTo) const {
     if (&compareTo == this) return false;
     
-    if (m_ItemIdentifier < compareTo.m_ItemIdentifier || m_Lexeme < compareTo.m_Lexeme) return true;
-    if (compareTo.m_ItemIdentifier < m_ItemIdentifier || compareTo.m_Lexeme < m_Lexeme) return false;
+    if (m_ItemIdentifier < compareTo.m_ItemIdentifier) return true;
+    if (compareTo.m_ItemIdentifier < m_ItemIdentifier) return false;
+    
+    if (m_Lexeme < compareTo.m_Lexeme) return true;
+    if (compareTo.m_Lexeme < m_Lexeme) return false;
     
     if (children().size() < compareTo.children().size()) return true;
     if (children().size() > compareTo.children().size()) return false;
-- 
2.43.0


From e502b9e16017b42107f17087807acf5474670b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:01 +0000
Subject: [PATCH 06/48] fix: action_rewriter::compare ordered a rewriter and
 NULL before each other

---
 TameParse/Lr/action_rewriter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Lr/action_rewriter.h b/TameParse/Lr/action_rewriter.h
index 2cca22c..6a4e488 100644
--- a/TameParse/Lr/action_rewriter.h
+++ b/TameParse/Lr/action_rewriter.h
@@ -66,7 +66,7 @@ namespace lr {
         static inline bool compare(const action_rewriter* a, const action_rewriter* b) {
             if (a == b) return false;
             if (!a) return true;
-            if (!b) return true;
+            if (!b) return false;
             
             // Just compare pointers by default, assume rewriters are always different
             return a < b;
-- 
2.43.0


From 19728fdce9ffca195e655c228f95a1177b859b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:01 +0000
Subject: [PATCH 07/48] fix: container <= and >= compared the container with
 itself

---
 TameParse/Util/container.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Util/container.h b/TameParse/Util/container.h
index 01829af..77c4a3b 100644
--- a/TameParse/Util/container.h
+++ b/TameParse/Util/container.h
@@ -153,12 +153,12 @@ namespace util {
         
         /// \brief Ordering operator
         inline bool operator>=(const container& compareTo) const {
-            return !operator<(*this);
+            return !operator<(compareTo);
         }
         
         /// \brief Ordering operator
         inline bool operator<=(const container& compareTo) const {
-            return !operator>(*this);
+            return !operator>(compareTo);
         }
         
         /// \brief Comparison operator
-- 
2.43.0


From 383780c3f263f73733d07c52845347dfe0928518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:01 +0000
Subject: [PATCH 08/48] fix: item sets with the same content compared as
 different after an erase left spare capacity

---
 TameParse/ContextFree/item_set.h | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/TameParse/ContextFree/item_set.h b/TameParse/ContextFree/item_set.h
index d912abf..e0e770b 100644
--- a/TameParse/ContextFree/item_set.h
+++ b/TameParse/ContextFree/item_set.h
@@ -85,6 +85,9 @@ namespace contextfree {
     private:
         /// \brief Recalculates the size (number of items) in this object
         void count_size();
+
+        /// \brief Retrieves the bits for a particular group of items (0 if no space has been allocated for them)
+        inline unsigned int items_at(int item) const { return item < m_MaxItem ? m_Items[item] : 0; }
         
     public:
         /// \brief Adds the item with the specified identifier to this item.
@@ -126,12 +129,10 @@ namespace contextfree {
     public:
         /// \brief Returns true if this item set is equal to another
         inline bool operator==(const item_set& compareTo) const {
-            // Compare the m_MaxItem first
-            if (compareTo.m_MaxItem != m_MaxItem) return false;
-
-            // Compare the elements
-            for (int item = 0; item < m_MaxItem; ++item) {
-                if (m_Items[item] != compareTo.m_Items[item]) return false;
+            // Compare the elements (items beyond the space allocated for a set are not in that set)
+            int maxItem = m_MaxItem > compareTo.m_MaxItem ? m_MaxItem : compareTo.m_MaxItem;
+            for (int item = 0; item < maxItem; ++item) {
+                if (items_at(item) != compareTo.items_at(item)) return false;
             }
 
             // Sets match
@@ -143,14 +144,11 @@ namespace contextfree {
 
         /// \brief Orders this set relative to another
         inline bool operator<(const item_set& compareTo) const {
-            // Compare the m_MaxItem first
-            if (m_MaxItem < compareTo.m_MaxItem) return true;
-            if (compareTo.m_MaxItem < m_MaxItem) return false;
-
-            // Compare the elements
-            for (int item = 0; item < m_MaxItem; ++item) {
-                if (m_Items[item] < compareTo.m_Items[item]) return true;
-                if (m_Items[item] > compareTo.m_Items[item]) return false;
+            // Compare the elements (items beyond the space allocated for a set are not in that set)
+            int maxItem = m_MaxItem > compareTo.m_MaxItem ? m_MaxItem : compareTo.m_MaxItem;
+            for (int item = 0; item < maxItem; ++item) {
+                if (items_at(item) < compareTo.items_at(item)) return true;
+                if (items_at(item) > compareTo.items_at(item)) return false;
             }
 
             // Sets match
-- 
2.43.0


From 749f0cff356f479779e1ad8f9f909eaf2ffb758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:48 +0000
Subject: [PATCH 09/48] fix: line endings other than LF did not move the offset
 of a position on

---
 TameParse/Dfa/position.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Dfa/position.h b/TameParse/Dfa/position.h
index 4c3c80b..040524a 100644
--- a/TameParse/Dfa/position.h
+++ b/TameParse/Dfa/position.h
@@ -174,6 +174,7 @@ namespace dfa {
                     break;
                     
                 case 0x0d:              // CR: Carriage Return
+                    m_CurrentPosition.increment();
                     m_CurrentPosition.newline();
                     m_SeenReturn = true;
                     break;
@@ -183,6 +184,7 @@ namespace dfa {
                 case 0x85:              // NEL: NExt Line
                 case 0x2028:            // LS: Line Separator
                 case 0x2029:            // PS: Paragraph Separator
+                    m_CurrentPosition.increment();
                     m_CurrentPosition.newline();
                     m_SeenReturn = false;
                     break;
-- 
2.43.0


From 0156aaed351729e68dfb04b3bad69139707ca6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 10/48] fix: copies of an EBNF item lost its type

---
 TameParse/Language/ebnf_item.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TameParse/Language/ebnf_item.cpp b/TameParse/Language/ebnf_item.cpp
index 4f6d0fa..9966092 100644
--- a/TameParse/Language/ebnf_item.cpp
+++ b/TameParse/Language/ebnf_item.cpp
@@ -72,6 +72,7 @@ ebnf_item& ebnf_item::operator=(const ebnf_item& copyFrom) {
     m_ChildItems.clear();
     
     // Copy the items from the source
+    m_Type              = copyFrom.m_Type;
     m_Identifier        = copyFrom.m_Identifier;
     m_SourceIdentifier  = copyFrom.m_SourceIdentifier;
     m_Attributes        = copyFrom.m_Attributes;
-- 
2.43.0


From 0a6dafaac17045dc5510a33d3f8025d2640fd4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 11/48] fix: copies of a lexer block lost its modifiers

---
 TameParse/Language/lexer_block.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TameParse/Language/lexer_block.cpp b/TameParse/Language/lexer_block.cpp
index 7db7aae..20cadf3 100644
--- a/TameParse/Language/lexer_block.cpp
+++ b/TameParse/Language/lexer_block.cpp
@@ -62,6 +62,11 @@ lexer_block& lexer_block::operator=(const lexer_block& copyFrom) {
     }
     m_Lexemes.clear();
     
+    // Copy the modifiers
+    m_Weak              = copyFrom.m_Weak;
+    m_CaseSensitive     = copyFrom.m_CaseSensitive;
+    m_CaseInsensitive   = copyFrom.m_CaseInsensitive;
+    
     // Copy the items from the source
     for (iterator toCopy = copyFrom.begin(); toCopy != copyFrom.end(); ++toCopy) {
         m_Lexemes.push_back(new lexeme_definition(**toCopy));
-- 
2.43.0


From 8d2567362eccdb51375d315be2f6695934beff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 12/48] fix: copies of a nonterminal definition lost its type

---
 TameParse/Language/nonterminal_definition.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TameParse/Language/nonterminal_definition.cpp b/TameParse/Language/nonterminal_definition.cpp
index 122fd52..eeebd92 100644
--- a/TameParse/Language/nonterminal_definition.cpp
+++ b/TameParse/Language/nonterminal_definition.cpp
@@ -66,6 +66,7 @@ nonterminal_definition& nonterminal_definition::operator=(const nonterminal_defi
         m_Productions.push_back(new production_definition(**toCopy));
     }
     
+    m_Type = copyFrom.m_Type;
     m_Identifier = copyFrom.identifier();
     set_start_pos(copyFrom.start_pos());
     set_end_pos(copyFrom.end_pos());
-- 
2.43.0


From 136f806c57170e57a40f84fea75d6cc4025479d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 13/48] fix: assigning to a top level block left it pointing at
 the block it had deleted

---
 TameParse/Language/toplevel_block.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TameParse/Language/toplevel_block.cpp b/TameParse/Language/toplevel_block.cpp
index 5eaeb4c..05a0044 100644
--- a/TameParse/Language/toplevel_block.cpp
+++ b/TameParse/Language/toplevel_block.cpp
@@ -97,6 +97,11 @@ toplevel_block& toplevel_block::operator=(const toplevel_block& copyFrom) {
     if (m_ParserBlock)      delete m_ParserBlock;
     if (m_TestBlock)        delete m_TestBlock;
     
+    m_ImportBlock   = NULL;
+    m_LanguageBlock = NULL;
+    m_ParserBlock   = NULL;
+    m_TestBlock     = NULL;
+    
     // Copy
     set_start_pos(copyFrom.start_pos());
     set_end_pos(copyFrom.end_pos());
-- 
2.43.0


From e4e7494fa00f3336d702f483d7e6e1257ccd60c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 14/48] fix: copies of a test block lost its position

---
 TameParse/Language/test_block.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TameParse/Language/test_block.cpp b/TameParse/Language/test_block.cpp
index 733cfcb..98939e1 100644
--- a/TameParse/Language/test_block.cpp
+++ b/TameParse/Language/test_block.cpp
@@ -59,6 +59,9 @@ test_block& test_block::operator=(const test_block& assignFrom) {
         m_TestDefinitions.push_back(new test_definition(**defn));
     }
     
+    set_start_pos(assignFrom.start_pos());
+    set_end_pos(assignFrom.end_pos());
+    
     return *this;
 }
 
-- 
2.43.0


From 54b5f0df538fe0a25ec40a6e33b5b86970e9a821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 15/48] fix: copies of a grammar block lost its position, and
 assigning one to itself emptied it

---
 TameParse/Language/grammar_block.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TameParse/Language/grammar_block.cpp b/TameParse/Language/grammar_block.cpp
index 98d1c91..131be28 100644
--- a/TameParse/Language/grammar_block.cpp
+++ b/TameParse/Language/grammar_block.cpp
@@ -50,6 +50,9 @@ grammar_block::~grammar_block() {
 
 /// \brief Assigns the value of this grammar block
 grammar_block& grammar_block::operator=(const grammar_block& copyFrom) {
+    // Can't assign to ourselves
+    if (&copyFrom == this) return *this;
+    
     // Delete the nonterminals
     for (nonterminal_definition_list::iterator toDelete = m_Nonterminals.begin(); toDelete != m_Nonterminals.end(); ++toDelete) {
         delete *toDelete;
@@ -61,6 +64,9 @@ grammar_block& grammar_block::operator=(const grammar_block& copyFrom) {
         m_Nonterminals.push_back(new nonterminal_definition(**toCopy));
     }
     
+    set_start_pos(copyFrom.start_pos());
+    set_end_pos(copyFrom.end_pos());
+    
     return *this;
 }
 
-- 
2.43.0


From e74b78163b2912801395ecb688672e5ca5d611b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:37 +0000
Subject: [PATCH 16/48] fix: copies of a remapped symbol map lost the symbols

---
 TameParse/Dfa/remapped_symbol_map.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Dfa/remapped_symbol_map.cpp b/TameParse/Dfa/remapped_symbol_map.cpp
index 7b97f3b..585316c 100644
--- a/TameParse/Dfa/remapped_symbol_map.cpp
+++ b/TameParse/Dfa/remapped_symbol_map.cpp
@@ -45,7 +45,8 @@ remapped_symbol_map::remapped_symbol_map() {
 
 /// \brief Copy constructor
 remapped_symbol_map::remapped_symbol_map(const remapped_symbol_map& copyFrom) 
-: m_OldToNew(copyFrom.m_OldToNew) {
+: symbol_map(copyFrom)
+, m_OldToNew(copyFrom.m_OldToNew) {
 }
 
 /// \brief Finds or adds an identifier for the specified symbol, adding the specified set of new symbols as the new symbols
-- 
2.43.0


From 093e40270c3ae433cbc2b3bad192839dffc16070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:07 +0000
Subject: [PATCH 17/48] fix: clones of the tool's console lost the input file
 and the exit code

---
 parsetool/boost_console.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsetool/boost_console.cpp b/parsetool/boost_console.cpp
index f9e1d6a..38d052e 100644
--- a/parsetool/boost_console.cpp
+++ b/parsetool/boost_console.cpp
@@ -46,8 +46,9 @@ namespace fs = boost::filesystem;
 
  // \brief Copies this console
 boost_console::boost_console(const boost_console& bc)
-: std_console(L"")
-, m_VarMap(bc.m_VarMap) {
+: std_console(bc)
+, m_VarMap(bc.m_VarMap)
+, m_InputFile(bc.m_InputFile) {
 }
 
 /// \brief Constructor
-- 
2.43.0


From 09608eb485bb5137392bbb958f2f1e1d92f35820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:07 +0000
Subject: [PATCH 18/48] fix: copying a precedence block shared its items, which
 were then deleted twice

---
 TameParse/Language/precedence_block.cpp | 35 +++++++++++++++++++++++++
 TameParse/Language/precedence_block.h   |  6 +++++
 2 files changed, 41 insertions(+)

diff --git a/TameParse/Language/precedence_block.cpp b/TameParse/Language/precedence_block.cpp
index f8785de..f4980e9 100644
--- a/TameParse/Language/precedence_block.cpp
+++ b/TameParse/Language/precedence_block.cpp
@@ -48,6 +48,41 @@ precedence_block::~precedence_block() {
     m_List.clear();
 }
 
+/// \brief Creates a precedence block by copying an existing one
+precedence_block::precedence_block(const precedence_block& copyFrom)
+: block(copyFrom) {
+    (*this) = copyFrom;
+}
+
+/// \brief Copies the content of a precedence block into this one
+precedence_block& precedence_block::operator=(const precedence_block& copyFrom) {
+    // Can't assign to ourselves
+    if (&copyFrom == this) return *this;
+    
+    // Free up the existing items
+    for (list::iterator item = m_List.begin(); item != m_List.end(); ++item) {
+        for (ebnf_item_list::iterator ebnfItem = item->items.begin(); ebnfItem != item->items.end(); ++ebnfItem) {
+            delete *ebnfItem;
+        }
+    }
+    m_List.clear();
+    
+    // Copy the items: each block owns the EBNF items in its list
+    for (iterator toCopy = copyFrom.begin(); toCopy != copyFrom.end(); ++toCopy) {
+        item newItem;
+        newItem.assoc = toCopy->assoc;
+        for (ebnf_item_list::const_iterator ebnfItem = toCopy->items.begin(); ebnfItem != toCopy->items.end(); ++ebnfItem) {
+            newItem.items.push_back(new ebnf_item(**ebnfItem));
+        }
+        m_List.push_back(newItem);
+    }
+    
+    set_start_pos(copyFrom.start_pos());
+    set_end_pos(copyFrom.end_pos());
+    
+    return *this;
+}
+
 /// \brief Adds a new item to this precedence definition
 void precedence_block::add_item(item& newItem) {
     // Add this item
diff --git a/TameParse/Language/precedence_block.h b/TameParse/Language/precedence_block.h
index b6e8b97..912b9ad 100644
--- a/TameParse/Language/precedence_block.h
+++ b/TameParse/Language/precedence_block.h
@@ -79,6 +79,12 @@ namespace yy_language {
         /// \brief Destructor
         virtual ~precedence_block();
         
+        /// \brief Creates a precedence block by copying an existing one
+        precedence_block(const precedence_block& copyFrom);
+        
+        /// \brief Copies the content of a precedence block into this one
+        precedence_block& operator=(const precedence_block& copyFrom);
+        
         /// \brief Adds a new item to this precedence definition
         void add_item(item& newItem);
         
-- 
2.43.0


From 9b8c14c05a16ffa031c07aec5d47f41c8452bfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:07 +0000
Subject: [PATCH 19/48] fix: copies of static parser tables never released the
 tables made for them

---
 TameParse/Lr/parser_tables.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Lr/parser_tables.cpp b/TameParse/Lr/parser_tables.cpp
index 36b2ca2..bd64ed4 100644
--- a/TameParse/Lr/parser_tables.cpp
+++ b/TameParse/Lr/parser_tables.cpp
@@ -260,7 +260,7 @@ parser_tables::parser_tables(const parser_tables& copyFrom)
 , m_NumRules(copyFrom.m_NumRules)
 , m_EndOfInput(copyFrom.m_EndOfInput)
 , m_EndOfGuard(copyFrom.m_EndOfGuard)
-, m_DeleteTables(copyFrom.m_DeleteTables)
+, m_DeleteTables(true)
 , m_NumWeakToStrong(copyFrom.m_NumWeakToStrong) {
     // Allocate the action tables
     m_TerminalActions       = new action*[m_NumStates+1];
@@ -339,7 +339,7 @@ parser_tables& parser_tables::operator=(const parser_tables& copyFrom) {
     m_NumRules          = copyFrom.m_NumRules;
     m_EndOfInput        = copyFrom.m_EndOfInput;
     m_EndOfGuard        = copyFrom.m_EndOfGuard;
-    m_DeleteTables      = copyFrom.m_DeleteTables;
+    m_DeleteTables      = true;
     m_NumWeakToStrong   = copyFrom.m_NumWeakToStrong;
 
     // Allocate the action tables
-- 
2.43.0


From 54bbf261f4ff9598a936c76ac844a81f1d3d4484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:20 +0000
Subject: [PATCH 20/48] fix: destroying a parser stack that had been copied
 destroyed the stack of its copies

---
 TameParse/Lr/parser_stack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TameParse/Lr/parser_stack.h b/TameParse/Lr/parser_stack.h
index 4e238fb..ac1373a 100644
--- a/TameParse/Lr/parser_stack.h
+++ b/TameParse/Lr/parser_stack.h
@@ -263,6 +263,7 @@ namespace lr {
         , m_Index(copyFrom.m_Index) {
             m_Next = m_Stack->m_RootReference;
             m_Last = NULL;
+            if (m_Next) m_Next->m_Last = this;
             m_Stack->m_RootReference = this;
         }
         
-- 
2.43.0


From 8b7491c1781674022cc5919788825a816af9c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:20 +0000
Subject: [PATCH 21/48] fix: after a reduction can_reduce looked for the end of
 the actions of the previous state

---
 TameParse/Lr/parser_state.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 9d972c2..3f8930e 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -479,7 +479,6 @@ namespace lr {
                     fake_reduce(act, stackPos, pushed, underlyingStack);
                     
                     // Get the new state
-                    int state;
                     if (!pushed.empty()) {
                         // (This will always happen unless there's a bug in the parser tables)
                         state = pushed.top();
-- 
2.43.0


From 25b443fcd9b52645169ba2b7101a7dd1c9ad44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:20 +0000
Subject: [PATCH 22/48] fix: the lookahead of a guard was used after a nested
 guard had moved it

---
 TameParse/Lr/parser_state.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 3f8930e..29a28b0 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -234,7 +234,8 @@ namespace lr {
         // Perform parser actions to decide if the guard is accepted or not
         for (;;) {
             // Fetch the lookahead
-            const lexeme_container& la = look(guardActions.offset());
+            // (This needs to be a copy: evaluating a nested guard can move the lookahead)
+            const lexeme_container la = look(guardActions.offset());
             
             // Get the current state
             int state = guardActions.current_state(this);
-- 
2.43.0


From a01586a7380505e6898f90d6e99ba74ba8256252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:20 +0000
Subject: [PATCH 23/48] fix: weak reductions at the end of a guard were checked
 against the symbol that follows it

---
 TameParse/Lr/parser_state.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 29a28b0..0e24eb3 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -287,14 +287,14 @@ namespace lr {
                     // TODO: if we've previously tested this symbol to see if it will reduce and the parser state hasn't changed
                     // then we can just re-use the existing information.
                     // TODO: see if this produces a meaningful speedup before complicating the code
-                    if (la.item() != NULL) {
+                    if (isTerminal) {
                         // Standard symbol: use the usual form of can_reduce
-                        if (!guardActions.can_reduce(la->matched(), act, this)) {
+                        if (!guardActions.can_reduce(sym, act, this)) {
                             continue;
                         }
                     } else {
-                        // Reached the end of input: check can_reduce for the EOI symbol
-                        if (!guardActions.can_reduce_nonterminal(m_Tables->end_of_input(), act, this)) {
+                        // Reached the end of the input or of the guard: check can_reduce for that symbol
+                        if (!guardActions.can_reduce_nonterminal(sym, act, this)) {
                             continue;
                         }
                     }
-- 
2.43.0


From 4c4876eb1453de4374610632e44e85526d9a5658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:30 +0000
Subject: [PATCH 24/48] fix: can_reduce could not be called for a lexeme or for
 the lookahead

---
 TameParse/Lr/parser.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/TameParse/Lr/parser.h b/TameParse/Lr/parser.h
index 1cf83f3..274a127 100644
--- a/TameParse/Lr/parser.h
+++ b/TameParse/Lr/parser.h
@@ -637,7 +637,10 @@ namespace lr {
             /// be resolved by a LR(1) parser, this will disambiguate the grammar (making it possible to choose
             /// only the action that allows the parser to continue)
             inline bool can_reduce(const lexeme_container& lexeme) {
-                return can_reduce<terminal_fetcher>(lexeme->matched(), 0, std::stack<int>());
+                // No lexeme indicates the end of the input
+                if (lexeme.item() == NULL) return can_reduce_nonterminal(m_Tables->end_of_input());
+
+                return can_reduce(lexeme->matched());
             }
 
             /// \brief Returns true if a reduction of the specified terminal symbol will result in it being shifted
-- 
2.43.0


From 269b8f877293ce6b4e2833c95d321848453bb673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:57 +0000
Subject: [PATCH 25/48] Revert "fix: copies of a test block lost its position"

This reverts commit e4e7494fa00f3336d702f483d7e6e1257ccd60c5.
---
 TameParse/Language/test_block.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/TameParse/Language/test_block.cpp b/TameParse/Language/test_block.cpp
index 98939e1..733cfcb 100644
--- a/TameParse/Language/test_block.cpp
+++ b/TameParse/Language/test_block.cpp
@@ -59,9 +59,6 @@ test_block& test_block::operator=(const test_block& assignFrom) {
         m_TestDefinitions.push_back(new test_definition(**defn));
     }
     
-    set_start_pos(assignFrom.start_pos());
-    set_end_pos(assignFrom.end_pos());
-    
     return *this;
 }
 
-- 
2.43.0


From 4ee439b534103e0865444a96755f75000dc5e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:27 +0000
Subject: [PATCH 26/48] fix: the rule of a terminal AST node was never set

---
 TameParse/Util/astnode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TameParse/Util/astnode.cpp b/TameParse/Util/astnode.cpp
index 379caa0..1b07602 100644
--- a/TameParse/Util/astnode.cpp
+++ b/TameParse/Util/astnode.cpp
@@ -48,6 +48,7 @@ astnode::astnode(int itemIdentifier, int rule)
 /// \brief Creates an AST node from a lexeme
 astnode::astnode(const dfa::lexeme_container& terminal)
 : m_ItemIdentifier(-1)
+, m_Rule(-1)
 , m_Lexeme(terminal) {
 }
 
-- 
2.43.0


From 7089468239bb55ad71864b0fcee4cf4c62b58b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:02 +0000
Subject: [PATCH 27/48] fix: deduplicating symbol sets put symbols from the gap
 after a range into the set

---
 TameParse/Dfa/remapped_symbol_map.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TameParse/Dfa/remapped_symbol_map.cpp b/TameParse/Dfa/remapped_symbol_map.cpp
index 585316c..13838e2 100644
--- a/TameParse/Dfa/remapped_symbol_map.cpp
+++ b/TameParse/Dfa/remapped_symbol_map.cpp
@@ -132,6 +132,9 @@ static void add_set(sets_for_range& sets, const symbol_set& symbols, int identif
             if (firstGreaterThan->first.lower() > remaining.lower()) {
                 int newUpper = firstGreaterThan->first.lower();
                 
+                // The gap might extend beyond the end of the range that we're adding
+                if (newUpper > remaining.upper()) newUpper = remaining.upper();
+                
                 // Insert a value to fill the gap
                 firstGreaterThan = sets.insert(firstGreaterThan, sets_for_range::value_type(symbol_range(remaining.lower(), newUpper), justUs));
                 
-- 
2.43.0


From 21cf12c2181b6d11f9a306c80463f2708ddace05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:18 +0000
Subject: [PATCH 28/48] fix: merging a symbol set with itself or excluding it
 from itself used ranges that had been erased

---
 TameParse/Dfa/symbol_set.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/TameParse/Dfa/symbol_set.cpp b/TameParse/Dfa/symbol_set.cpp
index d228a9e..a9dbbf4 100644
--- a/TameParse/Dfa/symbol_set.cpp
+++ b/TameParse/Dfa/symbol_set.cpp
@@ -55,6 +55,9 @@ symbol_set::~symbol_set() {
 
 /// \brief Merges this symbol set with another
 symbol_set& symbol_set::operator|=(const symbol_set& mergeWith) {
+    // Nothing to do when merging a set with itself (and merging replaces the ranges we'd be iterating over)
+    if (&mergeWith == this) return *this;
+    
     // Merge each of the ranges in turn
     // TODO: this will perform a search for each range, we can take advantage of the ordering to improve performance here
     for (symbol_store::const_iterator symRange = mergeWith.m_Symbols.begin(); symRange != mergeWith.m_Symbols.end(); ++symRange) {
@@ -110,6 +113,12 @@ symbol_set& symbol_set::operator|=(const symbol_range& mergeWith) {
 
 /// \brief Excludes a range of symbols from this set
 void symbol_set::exclude(const symbol_set& toExclude) {
+    // Excluding a set from itself leaves nothing (and removes the ranges we'd be iterating over)
+    if (&toExclude == this) {
+        m_Symbols.clear();
+        return;
+    }
+    
     // Exclude each of the ranges in turn
     // TODO: this will perform a search for each range, we can take advantage of the ordering to improve performance here
     for (symbol_store::const_iterator excluded = toExclude.m_Symbols.begin(); excluded != toExclude.m_Symbols.end(); ++excluded) {
-- 
2.43.0


From 0a9f1123e6f3b59eeeca202f13aa10a46dc7effd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:23 +0000
Subject: [PATCH 29/48] fix: symbol_level::add_range no longer touches the
 entry that starts at the end of the range

---
 TameParse/Dfa/symbol_table.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Dfa/symbol_table.h b/TameParse/Dfa/symbol_table.h
index ee84c40..780a1b8 100644
--- a/TameParse/Dfa/symbol_table.h
+++ b/TameParse/Dfa/symbol_table.h
@@ -116,6 +116,8 @@ namespace dfa {
                 return;
             }
             
+            // The upper bound is exclusive, so a range that ends on a boundary doesn't overlap the following entry
+            if (((range.upper() - base)&((1<<shift)-1)) == 0) --endIndex;
             if (endIndex > c_MaxIndex-1) endIndex = c_MaxIndex-1;
             
             // Create the symbol set if needed
-- 
2.43.0


From 17b28d179687d2ee5c5c0947f4b5daabecaf67cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:23 +0000
Subject: [PATCH 30/48] fix: to_hard_coded_table when every symbol is in the
 default set

---
 TameParse/Dfa/symbol_table.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TameParse/Dfa/symbol_table.h b/TameParse/Dfa/symbol_table.h
index 780a1b8..2348f34 100644
--- a/TameParse/Dfa/symbol_table.h
+++ b/TameParse/Dfa/symbol_table.h
@@ -339,6 +339,9 @@ namespace dfa {
                 if (symbolId >= highestUsed)  highestUsed = symbolId+1;
             }
 
+            // Nothing is used if every symbol is the same as the default symbol
+            if (highestUsed < lowestUsed) lowestUsed = highestUsed;
+
             // Allocate space for this table
             size = 2 + (highestUsed - lowestUsed);
             int*    newTable    = new int[size];
-- 
2.43.0


From 891dbe5ebe7309fe499194532a01721f6388c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:23 +0000
Subject: [PATCH 31/48] fix: hard_coded_symbol_table compares the low byte of
 the symbol at the lowest level

---
 TameParse/Dfa/hard_coded_symbol_table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/hard_coded_symbol_table.h b/TameParse/Dfa/hard_coded_symbol_table.h
index bc9e724..f34d6ea 100644
--- a/TameParse/Dfa/hard_coded_symbol_table.h
+++ b/TameParse/Dfa/hard_coded_symbol_table.h
@@ -70,10 +70,10 @@ namespace dfa {
         int highest = lowHigh>>8;
         
         // Return the default value if the symbol is out of range
-        if ((int) symbol < lowest || (int) symbol >= highest) return table[offset + 0];
+        int pos         = ((unsigned int) symbol&0xff);
+        if (pos < lowest || pos >= highest) return table[offset + 0];
         
         // Look up the symbol set
-        int pos         = ((unsigned int) symbol&0xff);
         int symbolSet   = table[offset + 2 + (pos - lowest)];
         
         // Use the default symbol if the offset is -1
-- 
2.43.0


From 49b029734e36d1336bb17fdd6e461cc57b8b9cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 32/48] fix: asking whether an NDFA is deterministic (or making
 a DFA of it) no longer adds the empty symbol set to it

---
 TameParse/Dfa/ndfa.cpp                 | 4 ++--
 TameParse/Dfa/ndfa_transformations.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/TameParse/Dfa/ndfa.cpp b/TameParse/Dfa/ndfa.cpp
index 851c1f7..f6f547d 100644
--- a/TameParse/Dfa/ndfa.cpp
+++ b/TameParse/Dfa/ndfa.cpp
@@ -442,7 +442,7 @@ void ndfa::closure(set<int>& states) const {
     set<int> newStates = states;
     
     // Get the symbol ID of the epsilon set
-    int epsSymbol = m_Symbols->identifier_for_symbols(epsilon());
+    int epsSymbol = m_Symbols->find_identifier_for_symbols(epsilon());
     if (epsSymbol == -1) return;
     
     // Iterate until we've added no new states
@@ -486,7 +486,7 @@ bool ndfa::verify_no_symbol_overlap() const {
 /// transition per symbol.
 bool ndfa::verify_is_dfa() const {
     // Get the symbol ID representing 'epsilon'
-    int epsSymbol = m_Symbols->identifier_for_symbols(epsilon());
+    int epsSymbol = m_Symbols->find_identifier_for_symbols(epsilon());
     
     // Iterate through the states in this NDFA
     for (state_list::const_iterator nextState = m_States->begin(); nextState != m_States->end(); ++nextState) {
diff --git a/TameParse/Dfa/ndfa_transformations.cpp b/TameParse/Dfa/ndfa_transformations.cpp
index a229064..145c3ea 100644
--- a/TameParse/Dfa/ndfa_transformations.cpp
+++ b/TameParse/Dfa/ndfa_transformations.cpp
@@ -73,7 +73,7 @@ ndfa* ndfa::to_dfa(const vector<int>& initialState) const {
     vector<state_set>           stateSets;
     
     // Get the epsilon set
-    int epsilonSymbolSet = m_Symbols->identifier_for_symbols(epsilon());
+    int epsilonSymbolSet = m_Symbols->find_identifier_for_symbols(epsilon());
     
     // Create a map saying which of our states are represented in each new state
     map<state_set, int> stateMap;
-- 
2.43.0


From 7b0402977d6de275440458cae6d19978526d5f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 33/48] fix: to_compact_dfa put accepting states with the
 states that do not accept

---
 TameParse/Dfa/ndfa_transformations.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/TameParse/Dfa/ndfa_transformations.cpp b/TameParse/Dfa/ndfa_transformations.cpp
index 145c3ea..5414749 100644
--- a/TameParse/Dfa/ndfa_transformations.cpp
+++ b/TameParse/Dfa/ndfa_transformations.cpp
@@ -323,8 +323,9 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
             
             if (existingState == stateForActions.end()) {
                 // Create a new state
-                targetState = (int) newStates.size()-1;
+                targetState = (int) newStates.size();
                 newStates.push_back(state_set());
+                stateForActions[actions] = targetState;
             } else {
                 // Add to the existing state
                 targetState = existingState->second;
@@ -395,7 +396,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
                 if (splitStateId == -1) {
                     // Assign a new state
                     changed         = true;
-                    splitStateId    = (int) newStates.size()-1;
+                    splitStateId    = (int) newStates.size();
                     newStates.push_back(state_set());
                 }
                 
@@ -415,6 +416,14 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
     
     // Build the final state machine from the result
 
+    // Number the states that are in use: there are no gaps in the identifiers of the states in the final state machine
+    vector<int> finalStateId;
+    int         numFinalStates = 0;
+    
+    for (int newStateId = 0; newStateId < (int) newStates.size(); ++newStateId) {
+        finalStateId.push_back(newStates[newStateId].empty()?-1:numFinalStates++);
+    }
+
     // Build the transitions and accepting actions
     state_list*                 states      = new state_list();
     symbol_map*                 symbolMap   = new symbol_map(*m_Symbols);
@@ -424,7 +433,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
         // Ignore empty states
         if (newStates[newStateId].empty()) continue;
         
-        state* newState = new state(newStateId);
+        state* newState = new state(finalStateId[newStateId]);
         states->push_back(newState);
         
         // Add the transitions for this state: we only need a single template state as the mapped transitions for each symbol
@@ -434,7 +443,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
         
         for (state::iterator originalTransit = templateState.begin(); originalTransit != templateState.end(); ++originalTransit) {
             int symbolSetId = originalTransit->symbol_set();
-            int targetState = oldToNew[originalTransit->new_state()];
+            int targetState = finalStateId[oldToNew[originalTransit->new_state()]];
             
             newState->add(transition(symbolSetId, targetState));
         }
@@ -442,7 +451,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
         // Copy the accept actions from the template state
         // TODO: if firstAction is set, then only copy the 'most important' action
         const accept_action_list&   actions         = actions_for_state(templateStateId);
-        accept_action_list&         targetActions   = (*accept)[newStateId];
+        accept_action_list&         targetActions   = (*accept)[finalStateId[newStateId]];
         for (accept_action_list::const_iterator act = actions.begin(); act != actions.end(); ++act) {
             targetActions.push_back((*act)->clone());
         }
-- 
2.43.0


From 25aed4ae055af3b1774e0149e93bd840367cb982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 34/48] fix: surrogate pairs whose second half is not in the
 range 0xdc00-0xdfff were accepted (and those in it missed)

---
 TameParse/Dfa/ndfa.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/ndfa.cpp b/TameParse/Dfa/ndfa.cpp
index f6f547d..206916c 100644
--- a/TameParse/Dfa/ndfa.cpp
+++ b/TameParse/Dfa/ndfa.cpp
@@ -241,14 +241,14 @@ static void add_surrogate_transition(const range<int>& surrogateRange, int curre
         nfa->add_transition(currentState, range<int>(surrogateLower.first, surrogateLower.first+1), tmpState1);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xdc00), targetState);
+        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xe000), targetState);
 
         // ... do the same for the 'upper' set of symbols
         int tmpState2 = nfa->add_state();
         nfa->add_transition(currentState, range<int>(surrogateHigher.first, surrogateHigher.first+1), tmpState2);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState2, range<int>(0xd800, surrogateHigher.second+1), targetState);
+        nfa->add_transition(tmpState2, range<int>(0xdc00, surrogateHigher.second+1), targetState);
 
         // If there's a middle range, then add transitions for that as well
         if (surrogateHigher.first-1 > surrogateLower.first) {
-- 
2.43.0


From b2514c97197f480365b391dd23bae377e2ef378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:04 +0000
Subject: [PATCH 35/48] fix: a repeated part of a regular expression could be
 returned to from the parts that follow it and from other expressions

---
 TameParse/Dfa/ndfa_regex.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 7291232..e6a1552 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -236,6 +236,9 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
         case '(':           // Group start
             // Start a new bracketed section by pushing the current state
             cons.push();
+
+            // The first alternative needs its own initial state (so repeating it can't lead to the other alternatives)
+            cons >> epsilon();
             break;
             
         case ')':           // Group end
@@ -246,6 +249,9 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
         case '|':           // Or
             // Or with the most recent state
             cons.begin_or();
+
+            // This alternative needs its own initial state (so repeating it can't lead to the other alternatives)
+            cons >> epsilon();
             break;
             
         case '*':           // 0 or more of previous
@@ -262,8 +268,10 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             cons.goto_state(current);
             cons >> previous >> epsilon();
             
-            // Final state is the current state (and preserve the 'previous' state)
-            cons.goto_state(current, previous);
+            // Final state is a new state, as whatever follows must not be able to get back here (preserve the 'previous' state)
+            cons.goto_state(current);
+            cons >> epsilon();
+            cons.goto_state(cons.current_state(), previous);
             break;
         }
 
@@ -277,8 +285,10 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             cons.goto_state(current);
             cons >> previous >> epsilon();
             
-            // Final state is the current state (and preserve the 'previous' state)
-            cons.goto_state(current, previous);
+            // Final state is a new state, as whatever follows must not be able to get back here (preserve the 'previous' state)
+            cons.goto_state(current);
+            cons >> epsilon();
+            cons.goto_state(cons.current_state(), previous);
             break;
         }
             
-- 
2.43.0


From aecfc1e99cfcb77602cb0ec7099a258795f1103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 36/48] fix: the alternatives of a regular expression were
 added to state 0 whichever state the expression was to start at

---
 TameParse/Dfa/ndfa_regex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index e6a1552..44b5ad3 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -168,6 +168,9 @@ int ndfa_regex::add_regex(int initialState, const symbol_string& regex) {
     cons.set_case_options(m_CaseInsensitive, m_CaseInsensitive);
     cons.goto_state(get_state(initialState));
     
+    // Any alternatives also start at this state
+    cons.push();
+    
     // Compile the regular expression
     return add_regex(cons, regex);
 }
-- 
2.43.0


From dda4e24928e399d3475166ff595e2430790c262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:49 +0000
Subject: [PATCH 37/48] fix: the case of a range that starts in the middle of a
 mapped range was converted past the end of that range

---
 TameParse/Util/unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Util/unicode.cpp b/TameParse/Util/unicode.cpp
index c834673..de4c001 100644
--- a/TameParse/Util/unicode.cpp
+++ b/TameParse/Util/unicode.cpp
@@ -92,7 +92,7 @@ static symbol_set convert_range(const symbol_range& range, const map_entry* map,
             int initialChar = curItem->map_to + (lowerChar - curItem->lower);
 
             // The number of characters to map
-            int numChars = curItem->upper - curItem->lower;
+            int numChars = curItem->upper - lowerChar;
             if (numChars > upperChar - lowerChar) {
                 numChars = upperChar - lowerChar;
             }
-- 
2.43.0


From 0e549e40bdf36464cd53b9fdfd1dd4a99ab877ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:44 +0000
Subject: [PATCH 38/48] fix: only the first and last characters of the
 ideographs and the other large ranges had a unicode category

---
 TameParse/Unicode/unicode.pl     | 4 ++--
 TameParse/Unicode/unicode_data.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/TameParse/Unicode/unicode.pl b/TameParse/Unicode/unicode.pl
index 19c87fc..fe7d29e 100755
--- a/TameParse/Unicode/unicode.pl
+++ b/TameParse/Unicode/unicode.pl
@@ -28,8 +28,8 @@ while ($_ = <>) {
 		# Get the last item
 		$lastRange = $rangeArray->[-1];
 
-		# Compare to the character
-		if ($lastRange->[1] == $charNum - 1) {
+		# Compare to the character (large ranges only have entries for their first and last characters)
+		if ($lastRange->[1] == $charNum - 1 || $fields[1] =~ /, Last>$/) {
 			# Just update the range
 			$lastRange->[1] = $charNum;
 		} else {
diff --git a/TameParse/Unicode/unicode_data.h b/TameParse/Unicode/unicode_data.h
index 89810a9..2f9113d 100644
--- a/TameParse/Unicode/unicode_data.h
+++ b/TameParse/Unicode/unicode_data.h
@@ -1,6 +1,6 @@
 /* Unicode character type table generated by unicode.pl */
 
-static unicode::range s_RangeCo[] = { { 57344, 57345 }, { 63743, 63744 }, { 983040, 983041 }, { 1048573, 1048574 }, { 1048576, 1048577 }, { 1114109, 1114110 }, { -1, -1 } };
+static unicode::range s_RangeCo[] = { { 57344, 63744 }, { 983040, 1048574 }, { 1048576, 1114110 }, { -1, -1 } };
 static unicode::range s_RangeLm[] = { { 688, 706 }, { 710, 722 }, { 736, 741 }, { 748, 749 }, { 750, 751 }, { 884, 885 }, { 890, 891 }, { 1369, 1370 }, { 1600, 1601 }, { 1765, 1767 }, { 2036, 2038 }, { 2042, 2043 }, { 2074, 2075 }, { 2084, 2085 }, { 2088, 2089 }, { 2417, 2418 }, { 3654, 3655 }, { 3782, 3783 }, { 4348, 4349 }, { 6103, 6104 }, { 6211, 6212 }, { 6823, 6824 }, { 7288, 7294 }, { 7468, 7522 }, { 7544, 7545 }, { 7579, 7616 }, { 8305, 8306 }, { 8319, 8320 }, { 8336, 8349 }, { 11389, 11390 }, { 11631, 11632 }, { 11823, 11824 }, { 12293, 12294 }, { 12337, 12342 }, { 12347, 12348 }, { 12445, 12447 }, { 12540, 12543 }, { 40981, 40982 }, { 42232, 42238 }, { 42508, 42509 }, { 42623, 42624 }, { 42775, 42784 }, { 42864, 42865 }, { 42888, 42889 }, { 43471, 43472 }, { 43632, 43633 }, { 43741, 43742 }, { 65392, 65393 }, { 65438, 65440 }, { -1, -1 } };
 static unicode::range s_RangePd[] = { { 45, 46 }, { 1418, 1419 }, { 1470, 1471 }, { 5120, 5121 }, { 6150, 6151 }, { 8208, 8214 }, { 11799, 11800 }, { 11802, 11803 }, { 12316, 12317 }, { 12336, 12337 }, { 12448, 12449 }, { 65073, 65075 }, { 65112, 65113 }, { 65123, 65124 }, { 65293, 65294 }, { -1, -1 } };
 static unicode::range s_RangeSo[] = { { 166, 168 }, { 169, 170 }, { 174, 175 }, { 176, 177 }, { 182, 183 }, { 1154, 1155 }, { 1550, 1552 }, { 1758, 1759 }, { 1769, 1770 }, { 1789, 1791 }, { 2038, 2039 }, { 2554, 2555 }, { 2928, 2929 }, { 3059, 3065 }, { 3066, 3067 }, { 3199, 3200 }, { 3449, 3450 }, { 3841, 3844 }, { 3859, 3864 }, { 3866, 3872 }, { 3892, 3893 }, { 3894, 3895 }, { 3896, 3897 }, { 4030, 4038 }, { 4039, 4045 }, { 4046, 4048 }, { 4053, 4057 }, { 4254, 4256 }, { 4960, 4961 }, { 5008, 5018 }, { 6464, 6465 }, { 6622, 6656 }, { 7009, 7019 }, { 7028, 7037 }, { 8448, 8450 }, { 8451, 8455 }, { 8456, 8458 }, { 8468, 8469 }, { 8470, 8472 }, { 8478, 8484 }, { 8485, 8486 }, { 8487, 8488 }, { 8489, 8490 }, { 8494, 8495 }, { 8506, 8508 }, { 8522, 8523 }, { 8524, 8526 }, { 8527, 8528 }, { 8597, 8602 }, { 8604, 8608 }, { 8609, 8611 }, { 8612, 8614 }, { 8615, 8622 }, { 8623, 8654 }, { 8656, 8658 }, { 8659, 8660 }, { 8661, 8692 }, { 8960, 8968 }, { 8972, 8992 }, { 8994, 9001 }, { 9003, 9084 }, { 9085, 9115 }, { 9140, 9180 }, { 9186, 9204 }, { 9216, 9255 }, { 9280, 9291 }, { 9372, 9450 }, { 9472, 9655 }, { 9656, 9665 }, { 9666, 9720 }, { 9728, 9839 }, { 9840, 9984 }, { 9985, 10088 }, { 10132, 10176 }, { 10240, 10496 }, { 11008, 11056 }, { 11077, 11079 }, { 11088, 11098 }, { 11493, 11499 }, { 11904, 11930 }, { 11931, 12020 }, { 12032, 12246 }, { 12272, 12284 }, { 12292, 12293 }, { 12306, 12308 }, { 12320, 12321 }, { 12342, 12344 }, { 12350, 12352 }, { 12688, 12690 }, { 12694, 12704 }, { 12736, 12772 }, { 12800, 12831 }, { 12842, 12881 }, { 12896, 12928 }, { 12938, 12977 }, { 12992, 13055 }, { 13056, 13312 }, { 19904, 19968 }, { 42128, 42183 }, { 43048, 43052 }, { 43062, 43064 }, { 43065, 43066 }, { 43639, 43642 }, { 65021, 65022 }, { 65508, 65509 }, { 65512, 65513 }, { 65517, 65519 }, { 65532, 65534 }, { 65794, 65795 }, { 65847, 65856 }, { 65913, 65930 }, { 65936, 65948 }, { 66000, 66045 }, { 118784, 119030 }, { 119040, 119079 }, { 119081, 119141 }, { 119146, 119149 }, { 119171, 119173 }, { 119180, 119210 }, { 119214, 119262 }, { 119296, 119362 }, { 119365, 119366 }, { 119552, 119639 }, { 126976, 127020 }, { 127024, 127124 }, { 127136, 127151 }, { 127153, 127167 }, { 127169, 127184 }, { 127185, 127200 }, { 127248, 127279 }, { 127280, 127338 }, { 127344, 127387 }, { 127462, 127491 }, { 127504, 127547 }, { 127552, 127561 }, { 127568, 127570 }, { 127744, 127777 }, { 127792, 127798 }, { 127799, 127869 }, { 127872, 127892 }, { 127904, 127941 }, { 127942, 127947 }, { 127968, 127985 }, { 128000, 128063 }, { 128064, 128065 }, { 128066, 128248 }, { 128249, 128253 }, { 128256, 128318 }, { 128336, 128360 }, { 128507, 128512 }, { 128513, 128529 }, { 128530, 128533 }, { 128534, 128535 }, { 128536, 128537 }, { 128538, 128539 }, { 128540, 128543 }, { 128544, 128550 }, { 128552, 128556 }, { 128557, 128558 }, { 128560, 128564 }, { 128565, 128577 }, { 128581, 128592 }, { 128640, 128710 }, { 128768, 128884 }, { -1, -1 } };
@@ -18,11 +18,11 @@ static unicode::range s_RangeCc[] = { { 0, 32 }, { 127, 160 }, { -1, -1 } };
 static unicode::range s_RangeLu[] = { { 65, 91 }, { 192, 215 }, { 216, 223 }, { 256, 257 }, { 258, 259 }, { 260, 261 }, { 262, 263 }, { 264, 265 }, { 266, 267 }, { 268, 269 }, { 270, 271 }, { 272, 273 }, { 274, 275 }, { 276, 277 }, { 278, 279 }, { 280, 281 }, { 282, 283 }, { 284, 285 }, { 286, 287 }, { 288, 289 }, { 290, 291 }, { 292, 293 }, { 294, 295 }, { 296, 297 }, { 298, 299 }, { 300, 301 }, { 302, 303 }, { 304, 305 }, { 306, 307 }, { 308, 309 }, { 310, 311 }, { 313, 314 }, { 315, 316 }, { 317, 318 }, { 319, 320 }, { 321, 322 }, { 323, 324 }, { 325, 326 }, { 327, 328 }, { 330, 331 }, { 332, 333 }, { 334, 335 }, { 336, 337 }, { 338, 339 }, { 340, 341 }, { 342, 343 }, { 344, 345 }, { 346, 347 }, { 348, 349 }, { 350, 351 }, { 352, 353 }, { 354, 355 }, { 356, 357 }, { 358, 359 }, { 360, 361 }, { 362, 363 }, { 364, 365 }, { 366, 367 }, { 368, 369 }, { 370, 371 }, { 372, 373 }, { 374, 375 }, { 376, 378 }, { 379, 380 }, { 381, 382 }, { 385, 387 }, { 388, 389 }, { 390, 392 }, { 393, 396 }, { 398, 402 }, { 403, 405 }, { 406, 409 }, { 412, 414 }, { 415, 417 }, { 418, 419 }, { 420, 421 }, { 422, 424 }, { 425, 426 }, { 428, 429 }, { 430, 432 }, { 433, 436 }, { 437, 438 }, { 439, 441 }, { 444, 445 }, { 452, 453 }, { 455, 456 }, { 458, 459 }, { 461, 462 }, { 463, 464 }, { 465, 466 }, { 467, 468 }, { 469, 470 }, { 471, 472 }, { 473, 474 }, { 475, 476 }, { 478, 479 }, { 480, 481 }, { 482, 483 }, { 484, 485 }, { 486, 487 }, { 488, 489 }, { 490, 491 }, { 492, 493 }, { 494, 495 }, { 497, 498 }, { 500, 501 }, { 502, 505 }, { 506, 507 }, { 508, 509 }, { 510, 511 }, { 512, 513 }, { 514, 515 }, { 516, 517 }, { 518, 519 }, { 520, 521 }, { 522, 523 }, { 524, 525 }, { 526, 527 }, { 528, 529 }, { 530, 531 }, { 532, 533 }, { 534, 535 }, { 536, 537 }, { 538, 539 }, { 540, 541 }, { 542, 543 }, { 544, 545 }, { 546, 547 }, { 548, 549 }, { 550, 551 }, { 552, 553 }, { 554, 555 }, { 556, 557 }, { 558, 559 }, { 560, 561 }, { 562, 563 }, { 570, 572 }, { 573, 575 }, { 577, 578 }, { 579, 583 }, { 584, 585 }, { 586, 587 }, { 588, 589 }, { 590, 591 }, { 880, 881 }, { 882, 883 }, { 886, 887 }, { 902, 903 }, { 904, 907 }, { 908, 909 }, { 910, 912 }, { 913, 930 }, { 931, 940 }, { 975, 976 }, { 978, 981 }, { 984, 985 }, { 986, 987 }, { 988, 989 }, { 990, 991 }, { 992, 993 }, { 994, 995 }, { 996, 997 }, { 998, 999 }, { 1000, 1001 }, { 1002, 1003 }, { 1004, 1005 }, { 1006, 1007 }, { 1012, 1013 }, { 1015, 1016 }, { 1017, 1019 }, { 1021, 1072 }, { 1120, 1121 }, { 1122, 1123 }, { 1124, 1125 }, { 1126, 1127 }, { 1128, 1129 }, { 1130, 1131 }, { 1132, 1133 }, { 1134, 1135 }, { 1136, 1137 }, { 1138, 1139 }, { 1140, 1141 }, { 1142, 1143 }, { 1144, 1145 }, { 1146, 1147 }, { 1148, 1149 }, { 1150, 1151 }, { 1152, 1153 }, { 1162, 1163 }, { 1164, 1165 }, { 1166, 1167 }, { 1168, 1169 }, { 1170, 1171 }, { 1172, 1173 }, { 1174, 1175 }, { 1176, 1177 }, { 1178, 1179 }, { 1180, 1181 }, { 1182, 1183 }, { 1184, 1185 }, { 1186, 1187 }, { 1188, 1189 }, { 1190, 1191 }, { 1192, 1193 }, { 1194, 1195 }, { 1196, 1197 }, { 1198, 1199 }, { 1200, 1201 }, { 1202, 1203 }, { 1204, 1205 }, { 1206, 1207 }, { 1208, 1209 }, { 1210, 1211 }, { 1212, 1213 }, { 1214, 1215 }, { 1216, 1218 }, { 1219, 1220 }, { 1221, 1222 }, { 1223, 1224 }, { 1225, 1226 }, { 1227, 1228 }, { 1229, 1230 }, { 1232, 1233 }, { 1234, 1235 }, { 1236, 1237 }, { 1238, 1239 }, { 1240, 1241 }, { 1242, 1243 }, { 1244, 1245 }, { 1246, 1247 }, { 1248, 1249 }, { 1250, 1251 }, { 1252, 1253 }, { 1254, 1255 }, { 1256, 1257 }, { 1258, 1259 }, { 1260, 1261 }, { 1262, 1263 }, { 1264, 1265 }, { 1266, 1267 }, { 1268, 1269 }, { 1270, 1271 }, { 1272, 1273 }, { 1274, 1275 }, { 1276, 1277 }, { 1278, 1279 }, { 1280, 1281 }, { 1282, 1283 }, { 1284, 1285 }, { 1286, 1287 }, { 1288, 1289 }, { 1290, 1291 }, { 1292, 1293 }, { 1294, 1295 }, { 1296, 1297 }, { 1298, 1299 }, { 1300, 1301 }, { 1302, 1303 }, { 1304, 1305 }, { 1306, 1307 }, { 1308, 1309 }, { 1310, 1311 }, { 1312, 1313 }, { 1314, 1315 }, { 1316, 1317 }, { 1318, 1319 }, { 1329, 1367 }, { 4256, 4294 }, { 7680, 7681 }, { 7682, 7683 }, { 7684, 7685 }, { 7686, 7687 }, { 7688, 7689 }, { 7690, 7691 }, { 7692, 7693 }, { 7694, 7695 }, { 7696, 7697 }, { 7698, 7699 }, { 7700, 7701 }, { 7702, 7703 }, { 7704, 7705 }, { 7706, 7707 }, { 7708, 7709 }, { 7710, 7711 }, { 7712, 7713 }, { 7714, 7715 }, { 7716, 7717 }, { 7718, 7719 }, { 7720, 7721 }, { 7722, 7723 }, { 7724, 7725 }, { 7726, 7727 }, { 7728, 7729 }, { 7730, 7731 }, { 7732, 7733 }, { 7734, 7735 }, { 7736, 7737 }, { 7738, 7739 }, { 7740, 7741 }, { 7742, 7743 }, { 7744, 7745 }, { 7746, 7747 }, { 7748, 7749 }, { 7750, 7751 }, { 7752, 7753 }, { 7754, 7755 }, { 7756, 7757 }, { 7758, 7759 }, { 7760, 7761 }, { 7762, 7763 }, { 7764, 7765 }, { 7766, 7767 }, { 7768, 7769 }, { 7770, 7771 }, { 7772, 7773 }, { 7774, 7775 }, { 7776, 7777 }, { 7778, 7779 }, { 7780, 7781 }, { 7782, 7783 }, { 7784, 7785 }, { 7786, 7787 }, { 7788, 7789 }, { 7790, 7791 }, { 7792, 7793 }, { 7794, 7795 }, { 7796, 7797 }, { 7798, 7799 }, { 7800, 7801 }, { 7802, 7803 }, { 7804, 7805 }, { 7806, 7807 }, { 7808, 7809 }, { 7810, 7811 }, { 7812, 7813 }, { 7814, 7815 }, { 7816, 7817 }, { 7818, 7819 }, { 7820, 7821 }, { 7822, 7823 }, { 7824, 7825 }, { 7826, 7827 }, { 7828, 7829 }, { 7838, 7839 }, { 7840, 7841 }, { 7842, 7843 }, { 7844, 7845 }, { 7846, 7847 }, { 7848, 7849 }, { 7850, 7851 }, { 7852, 7853 }, { 7854, 7855 }, { 7856, 7857 }, { 7858, 7859 }, { 7860, 7861 }, { 7862, 7863 }, { 7864, 7865 }, { 7866, 7867 }, { 7868, 7869 }, { 7870, 7871 }, { 7872, 7873 }, { 7874, 7875 }, { 7876, 7877 }, { 7878, 7879 }, { 7880, 7881 }, { 7882, 7883 }, { 7884, 7885 }, { 7886, 7887 }, { 7888, 7889 }, { 7890, 7891 }, { 7892, 7893 }, { 7894, 7895 }, { 7896, 7897 }, { 7898, 7899 }, { 7900, 7901 }, { 7902, 7903 }, { 7904, 7905 }, { 7906, 7907 }, { 7908, 7909 }, { 7910, 7911 }, { 7912, 7913 }, { 7914, 7915 }, { 7916, 7917 }, { 7918, 7919 }, { 7920, 7921 }, { 7922, 7923 }, { 7924, 7925 }, { 7926, 7927 }, { 7928, 7929 }, { 7930, 7931 }, { 7932, 7933 }, { 7934, 7935 }, { 7944, 7952 }, { 7960, 7966 }, { 7976, 7984 }, { 7992, 8000 }, { 8008, 8014 }, { 8025, 8026 }, { 8027, 8028 }, { 8029, 8030 }, { 8031, 8032 }, { 8040, 8048 }, { 8120, 8124 }, { 8136, 8140 }, { 8152, 8156 }, { 8168, 8173 }, { 8184, 8188 }, { 8450, 8451 }, { 8455, 8456 }, { 8459, 8462 }, { 8464, 8467 }, { 8469, 8470 }, { 8473, 8478 }, { 8484, 8485 }, { 8486, 8487 }, { 8488, 8489 }, { 8490, 8494 }, { 8496, 8500 }, { 8510, 8512 }, { 8517, 8518 }, { 8579, 8580 }, { 11264, 11311 }, { 11360, 11361 }, { 11362, 11365 }, { 11367, 11368 }, { 11369, 11370 }, { 11371, 11372 }, { 11373, 11377 }, { 11378, 11379 }, { 11381, 11382 }, { 11390, 11393 }, { 11394, 11395 }, { 11396, 11397 }, { 11398, 11399 }, { 11400, 11401 }, { 11402, 11403 }, { 11404, 11405 }, { 11406, 11407 }, { 11408, 11409 }, { 11410, 11411 }, { 11412, 11413 }, { 11414, 11415 }, { 11416, 11417 }, { 11418, 11419 }, { 11420, 11421 }, { 11422, 11423 }, { 11424, 11425 }, { 11426, 11427 }, { 11428, 11429 }, { 11430, 11431 }, { 11432, 11433 }, { 11434, 11435 }, { 11436, 11437 }, { 11438, 11439 }, { 11440, 11441 }, { 11442, 11443 }, { 11444, 11445 }, { 11446, 11447 }, { 11448, 11449 }, { 11450, 11451 }, { 11452, 11453 }, { 11454, 11455 }, { 11456, 11457 }, { 11458, 11459 }, { 11460, 11461 }, { 11462, 11463 }, { 11464, 11465 }, { 11466, 11467 }, { 11468, 11469 }, { 11470, 11471 }, { 11472, 11473 }, { 11474, 11475 }, { 11476, 11477 }, { 11478, 11479 }, { 11480, 11481 }, { 11482, 11483 }, { 11484, 11485 }, { 11486, 11487 }, { 11488, 11489 }, { 11490, 11491 }, { 11499, 11500 }, { 11501, 11502 }, { 42560, 42561 }, { 42562, 42563 }, { 42564, 42565 }, { 42566, 42567 }, { 42568, 42569 }, { 42570, 42571 }, { 42572, 42573 }, { 42574, 42575 }, { 42576, 42577 }, { 42578, 42579 }, { 42580, 42581 }, { 42582, 42583 }, { 42584, 42585 }, { 42586, 42587 }, { 42588, 42589 }, { 42590, 42591 }, { 42592, 42593 }, { 42594, 42595 }, { 42596, 42597 }, { 42598, 42599 }, { 42600, 42601 }, { 42602, 42603 }, { 42604, 42605 }, { 42624, 42625 }, { 42626, 42627 }, { 42628, 42629 }, { 42630, 42631 }, { 42632, 42633 }, { 42634, 42635 }, { 42636, 42637 }, { 42638, 42639 }, { 42640, 42641 }, { 42642, 42643 }, { 42644, 42645 }, { 42646, 42647 }, { 42786, 42787 }, { 42788, 42789 }, { 42790, 42791 }, { 42792, 42793 }, { 42794, 42795 }, { 42796, 42797 }, { 42798, 42799 }, { 42802, 42803 }, { 42804, 42805 }, { 42806, 42807 }, { 42808, 42809 }, { 42810, 42811 }, { 42812, 42813 }, { 42814, 42815 }, { 42816, 42817 }, { 42818, 42819 }, { 42820, 42821 }, { 42822, 42823 }, { 42824, 42825 }, { 42826, 42827 }, { 42828, 42829 }, { 42830, 42831 }, { 42832, 42833 }, { 42834, 42835 }, { 42836, 42837 }, { 42838, 42839 }, { 42840, 42841 }, { 42842, 42843 }, { 42844, 42845 }, { 42846, 42847 }, { 42848, 42849 }, { 42850, 42851 }, { 42852, 42853 }, { 42854, 42855 }, { 42856, 42857 }, { 42858, 42859 }, { 42860, 42861 }, { 42862, 42863 }, { 42873, 42874 }, { 42875, 42876 }, { 42877, 42879 }, { 42880, 42881 }, { 42882, 42883 }, { 42884, 42885 }, { 42886, 42887 }, { 42891, 42892 }, { 42893, 42894 }, { 42896, 42897 }, { 42912, 42913 }, { 42914, 42915 }, { 42916, 42917 }, { 42918, 42919 }, { 42920, 42921 }, { 65313, 65339 }, { 66560, 66600 }, { 119808, 119834 }, { 119860, 119886 }, { 119912, 119938 }, { 119964, 119965 }, { 119966, 119968 }, { 119970, 119971 }, { 119973, 119975 }, { 119977, 119981 }, { 119982, 119990 }, { 120016, 120042 }, { 120068, 120070 }, { 120071, 120075 }, { 120077, 120085 }, { 120086, 120093 }, { 120120, 120122 }, { 120123, 120127 }, { 120128, 120133 }, { 120134, 120135 }, { 120138, 120145 }, { 120172, 120198 }, { 120224, 120250 }, { 120276, 120302 }, { 120328, 120354 }, { 120380, 120406 }, { 120432, 120458 }, { 120488, 120513 }, { 120546, 120571 }, { 120604, 120629 }, { 120662, 120687 }, { 120720, 120745 }, { 120778, 120779 }, { -1, -1 } };
 static unicode::range s_RangeMc[] = { { 2307, 2308 }, { 2363, 2364 }, { 2366, 2369 }, { 2377, 2381 }, { 2382, 2384 }, { 2434, 2436 }, { 2494, 2497 }, { 2503, 2505 }, { 2507, 2509 }, { 2519, 2520 }, { 2563, 2564 }, { 2622, 2625 }, { 2691, 2692 }, { 2750, 2753 }, { 2761, 2762 }, { 2763, 2765 }, { 2818, 2820 }, { 2878, 2879 }, { 2880, 2881 }, { 2887, 2889 }, { 2891, 2893 }, { 2903, 2904 }, { 3006, 3008 }, { 3009, 3011 }, { 3014, 3017 }, { 3018, 3021 }, { 3031, 3032 }, { 3073, 3076 }, { 3137, 3141 }, { 3202, 3204 }, { 3262, 3263 }, { 3264, 3269 }, { 3271, 3273 }, { 3274, 3276 }, { 3285, 3287 }, { 3330, 3332 }, { 3390, 3393 }, { 3398, 3401 }, { 3402, 3405 }, { 3415, 3416 }, { 3458, 3460 }, { 3535, 3538 }, { 3544, 3552 }, { 3570, 3572 }, { 3902, 3904 }, { 3967, 3968 }, { 4139, 4141 }, { 4145, 4146 }, { 4152, 4153 }, { 4155, 4157 }, { 4182, 4184 }, { 4194, 4197 }, { 4199, 4206 }, { 4227, 4229 }, { 4231, 4237 }, { 4239, 4240 }, { 4250, 4253 }, { 6070, 6071 }, { 6078, 6086 }, { 6087, 6089 }, { 6435, 6439 }, { 6441, 6444 }, { 6448, 6450 }, { 6451, 6457 }, { 6576, 6593 }, { 6600, 6602 }, { 6681, 6684 }, { 6741, 6742 }, { 6743, 6744 }, { 6753, 6754 }, { 6755, 6757 }, { 6765, 6771 }, { 6916, 6917 }, { 6965, 6966 }, { 6971, 6972 }, { 6973, 6978 }, { 6979, 6981 }, { 7042, 7043 }, { 7073, 7074 }, { 7078, 7080 }, { 7082, 7083 }, { 7143, 7144 }, { 7146, 7149 }, { 7150, 7151 }, { 7154, 7156 }, { 7204, 7212 }, { 7220, 7222 }, { 7393, 7394 }, { 7410, 7411 }, { 43043, 43045 }, { 43047, 43048 }, { 43136, 43138 }, { 43188, 43204 }, { 43346, 43348 }, { 43395, 43396 }, { 43444, 43446 }, { 43450, 43452 }, { 43453, 43457 }, { 43567, 43569 }, { 43571, 43573 }, { 43597, 43598 }, { 43643, 43644 }, { 44003, 44005 }, { 44006, 44008 }, { 44009, 44011 }, { 44012, 44013 }, { 69632, 69633 }, { 69634, 69635 }, { 69762, 69763 }, { 69808, 69811 }, { 69815, 69817 }, { 119141, 119143 }, { 119149, 119155 }, { -1, -1 } };
 static unicode::range s_RangeSm[] = { { 43, 44 }, { 60, 63 }, { 124, 125 }, { 126, 127 }, { 172, 173 }, { 177, 178 }, { 215, 216 }, { 247, 248 }, { 1014, 1015 }, { 1542, 1545 }, { 8260, 8261 }, { 8274, 8275 }, { 8314, 8317 }, { 8330, 8333 }, { 8472, 8473 }, { 8512, 8517 }, { 8523, 8524 }, { 8592, 8597 }, { 8602, 8604 }, { 8608, 8609 }, { 8611, 8612 }, { 8614, 8615 }, { 8622, 8623 }, { 8654, 8656 }, { 8658, 8659 }, { 8660, 8661 }, { 8692, 8960 }, { 8968, 8972 }, { 8992, 8994 }, { 9084, 9085 }, { 9115, 9140 }, { 9180, 9186 }, { 9655, 9656 }, { 9665, 9666 }, { 9720, 9728 }, { 9839, 9840 }, { 10176, 10181 }, { 10183, 10187 }, { 10188, 10189 }, { 10190, 10214 }, { 10224, 10240 }, { 10496, 10627 }, { 10649, 10712 }, { 10716, 10748 }, { 10750, 11008 }, { 11056, 11077 }, { 11079, 11085 }, { 64297, 64298 }, { 65122, 65123 }, { 65124, 65127 }, { 65291, 65292 }, { 65308, 65311 }, { 65372, 65373 }, { 65374, 65375 }, { 65506, 65507 }, { 65513, 65517 }, { 120513, 120514 }, { 120539, 120540 }, { 120571, 120572 }, { 120597, 120598 }, { 120629, 120630 }, { 120655, 120656 }, { 120687, 120688 }, { 120713, 120714 }, { 120745, 120746 }, { 120771, 120772 }, { -1, -1 } };
-static unicode::range s_RangeCs[] = { { 55296, 55297 }, { 56191, 56193 }, { 56319, 56321 }, { 57343, 57344 }, { -1, -1 } };
+static unicode::range s_RangeCs[] = { { 55296, 57344 }, { -1, -1 } };
 static unicode::range s_RangeLt[] = { { 453, 454 }, { 456, 457 }, { 459, 460 }, { 498, 499 }, { 8072, 8080 }, { 8088, 8096 }, { 8104, 8112 }, { 8124, 8125 }, { 8140, 8141 }, { 8188, 8189 }, { -1, -1 } };
 static unicode::range s_RangePc[] = { { 95, 96 }, { 8255, 8257 }, { 8276, 8277 }, { 65075, 65077 }, { 65101, 65104 }, { 65343, 65344 }, { -1, -1 } };
 static unicode::range s_RangeNl[] = { { 5870, 5873 }, { 8544, 8579 }, { 8581, 8585 }, { 12295, 12296 }, { 12321, 12330 }, { 12344, 12347 }, { 42726, 42736 }, { 65856, 65909 }, { 66369, 66370 }, { 66378, 66379 }, { 66513, 66518 }, { 74752, 74851 }, { -1, -1 } };
-static unicode::range s_RangeLo[] = { { 443, 444 }, { 448, 452 }, { 660, 661 }, { 1488, 1515 }, { 1520, 1523 }, { 1568, 1600 }, { 1601, 1611 }, { 1646, 1648 }, { 1649, 1748 }, { 1749, 1750 }, { 1774, 1776 }, { 1786, 1789 }, { 1791, 1792 }, { 1808, 1809 }, { 1810, 1840 }, { 1869, 1958 }, { 1969, 1970 }, { 1994, 2027 }, { 2048, 2070 }, { 2112, 2137 }, { 2308, 2362 }, { 2365, 2366 }, { 2384, 2385 }, { 2392, 2402 }, { 2418, 2424 }, { 2425, 2432 }, { 2437, 2445 }, { 2447, 2449 }, { 2451, 2473 }, { 2474, 2481 }, { 2482, 2483 }, { 2486, 2490 }, { 2493, 2494 }, { 2510, 2511 }, { 2524, 2526 }, { 2527, 2530 }, { 2544, 2546 }, { 2565, 2571 }, { 2575, 2577 }, { 2579, 2601 }, { 2602, 2609 }, { 2610, 2612 }, { 2613, 2615 }, { 2616, 2618 }, { 2649, 2653 }, { 2654, 2655 }, { 2674, 2677 }, { 2693, 2702 }, { 2703, 2706 }, { 2707, 2729 }, { 2730, 2737 }, { 2738, 2740 }, { 2741, 2746 }, { 2749, 2750 }, { 2768, 2769 }, { 2784, 2786 }, { 2821, 2829 }, { 2831, 2833 }, { 2835, 2857 }, { 2858, 2865 }, { 2866, 2868 }, { 2869, 2874 }, { 2877, 2878 }, { 2908, 2910 }, { 2911, 2914 }, { 2929, 2930 }, { 2947, 2948 }, { 2949, 2955 }, { 2958, 2961 }, { 2962, 2966 }, { 2969, 2971 }, { 2972, 2973 }, { 2974, 2976 }, { 2979, 2981 }, { 2984, 2987 }, { 2990, 3002 }, { 3024, 3025 }, { 3077, 3085 }, { 3086, 3089 }, { 3090, 3113 }, { 3114, 3124 }, { 3125, 3130 }, { 3133, 3134 }, { 3160, 3162 }, { 3168, 3170 }, { 3205, 3213 }, { 3214, 3217 }, { 3218, 3241 }, { 3242, 3252 }, { 3253, 3258 }, { 3261, 3262 }, { 3294, 3295 }, { 3296, 3298 }, { 3313, 3315 }, { 3333, 3341 }, { 3342, 3345 }, { 3346, 3387 }, { 3389, 3390 }, { 3406, 3407 }, { 3424, 3426 }, { 3450, 3456 }, { 3461, 3479 }, { 3482, 3506 }, { 3507, 3516 }, { 3517, 3518 }, { 3520, 3527 }, { 3585, 3633 }, { 3634, 3636 }, { 3648, 3654 }, { 3713, 3715 }, { 3716, 3717 }, { 3719, 3721 }, { 3722, 3723 }, { 3725, 3726 }, { 3732, 3736 }, { 3737, 3744 }, { 3745, 3748 }, { 3749, 3750 }, { 3751, 3752 }, { 3754, 3756 }, { 3757, 3761 }, { 3762, 3764 }, { 3773, 3774 }, { 3776, 3781 }, { 3804, 3806 }, { 3840, 3841 }, { 3904, 3912 }, { 3913, 3949 }, { 3976, 3981 }, { 4096, 4139 }, { 4159, 4160 }, { 4176, 4182 }, { 4186, 4190 }, { 4193, 4194 }, { 4197, 4199 }, { 4206, 4209 }, { 4213, 4226 }, { 4238, 4239 }, { 4304, 4347 }, { 4352, 4681 }, { 4682, 4686 }, { 4688, 4695 }, { 4696, 4697 }, { 4698, 4702 }, { 4704, 4745 }, { 4746, 4750 }, { 4752, 4785 }, { 4786, 4790 }, { 4792, 4799 }, { 4800, 4801 }, { 4802, 4806 }, { 4808, 4823 }, { 4824, 4881 }, { 4882, 4886 }, { 4888, 4955 }, { 4992, 5008 }, { 5024, 5109 }, { 5121, 5741 }, { 5743, 5760 }, { 5761, 5787 }, { 5792, 5867 }, { 5888, 5901 }, { 5902, 5906 }, { 5920, 5938 }, { 5952, 5970 }, { 5984, 5997 }, { 5998, 6001 }, { 6016, 6068 }, { 6108, 6109 }, { 6176, 6211 }, { 6212, 6264 }, { 6272, 6313 }, { 6314, 6315 }, { 6320, 6390 }, { 6400, 6429 }, { 6480, 6510 }, { 6512, 6517 }, { 6528, 6572 }, { 6593, 6600 }, { 6656, 6679 }, { 6688, 6741 }, { 6917, 6964 }, { 6981, 6988 }, { 7043, 7073 }, { 7086, 7088 }, { 7104, 7142 }, { 7168, 7204 }, { 7245, 7248 }, { 7258, 7288 }, { 7401, 7405 }, { 7406, 7410 }, { 8501, 8505 }, { 11568, 11622 }, { 11648, 11671 }, { 11680, 11687 }, { 11688, 11695 }, { 11696, 11703 }, { 11704, 11711 }, { 11712, 11719 }, { 11720, 11727 }, { 11728, 11735 }, { 11736, 11743 }, { 12294, 12295 }, { 12348, 12349 }, { 12353, 12439 }, { 12447, 12448 }, { 12449, 12539 }, { 12543, 12544 }, { 12549, 12590 }, { 12593, 12687 }, { 12704, 12731 }, { 12784, 12800 }, { 13312, 13313 }, { 19893, 19894 }, { 19968, 19969 }, { 40907, 40908 }, { 40960, 40981 }, { 40982, 42125 }, { 42192, 42232 }, { 42240, 42508 }, { 42512, 42528 }, { 42538, 42540 }, { 42606, 42607 }, { 42656, 42726 }, { 43003, 43010 }, { 43011, 43014 }, { 43015, 43019 }, { 43020, 43043 }, { 43072, 43124 }, { 43138, 43188 }, { 43250, 43256 }, { 43259, 43260 }, { 43274, 43302 }, { 43312, 43335 }, { 43360, 43389 }, { 43396, 43443 }, { 43520, 43561 }, { 43584, 43587 }, { 43588, 43596 }, { 43616, 43632 }, { 43633, 43639 }, { 43642, 43643 }, { 43648, 43696 }, { 43697, 43698 }, { 43701, 43703 }, { 43705, 43710 }, { 43712, 43713 }, { 43714, 43715 }, { 43739, 43741 }, { 43777, 43783 }, { 43785, 43791 }, { 43793, 43799 }, { 43808, 43815 }, { 43816, 43823 }, { 43968, 44003 }, { 44032, 44033 }, { 55203, 55204 }, { 55216, 55239 }, { 55243, 55292 }, { 63744, 64046 }, { 64048, 64110 }, { 64112, 64218 }, { 64285, 64286 }, { 64287, 64297 }, { 64298, 64311 }, { 64312, 64317 }, { 64318, 64319 }, { 64320, 64322 }, { 64323, 64325 }, { 64326, 64434 }, { 64467, 64830 }, { 64848, 64912 }, { 64914, 64968 }, { 65008, 65020 }, { 65136, 65141 }, { 65142, 65277 }, { 65382, 65392 }, { 65393, 65438 }, { 65440, 65471 }, { 65474, 65480 }, { 65482, 65488 }, { 65490, 65496 }, { 65498, 65501 }, { 65536, 65548 }, { 65549, 65575 }, { 65576, 65595 }, { 65596, 65598 }, { 65599, 65614 }, { 65616, 65630 }, { 65664, 65787 }, { 66176, 66205 }, { 66208, 66257 }, { 66304, 66335 }, { 66352, 66369 }, { 66370, 66378 }, { 66432, 66462 }, { 66464, 66500 }, { 66504, 66512 }, { 66640, 66718 }, { 67584, 67590 }, { 67592, 67593 }, { 67594, 67638 }, { 67639, 67641 }, { 67644, 67645 }, { 67647, 67670 }, { 67840, 67862 }, { 67872, 67898 }, { 68096, 68097 }, { 68112, 68116 }, { 68117, 68120 }, { 68121, 68148 }, { 68192, 68221 }, { 68352, 68406 }, { 68416, 68438 }, { 68448, 68467 }, { 68608, 68681 }, { 69635, 69688 }, { 69763, 69808 }, { 73728, 74607 }, { 77824, 78895 }, { 92160, 92729 }, { 110592, 110594 }, { 131072, 131073 }, { 173782, 173783 }, { 173824, 173825 }, { 177972, 177973 }, { 177984, 177985 }, { 178205, 178206 }, { 194560, 195102 }, { -1, -1 } };
+static unicode::range s_RangeLo[] = { { 443, 444 }, { 448, 452 }, { 660, 661 }, { 1488, 1515 }, { 1520, 1523 }, { 1568, 1600 }, { 1601, 1611 }, { 1646, 1648 }, { 1649, 1748 }, { 1749, 1750 }, { 1774, 1776 }, { 1786, 1789 }, { 1791, 1792 }, { 1808, 1809 }, { 1810, 1840 }, { 1869, 1958 }, { 1969, 1970 }, { 1994, 2027 }, { 2048, 2070 }, { 2112, 2137 }, { 2308, 2362 }, { 2365, 2366 }, { 2384, 2385 }, { 2392, 2402 }, { 2418, 2424 }, { 2425, 2432 }, { 2437, 2445 }, { 2447, 2449 }, { 2451, 2473 }, { 2474, 2481 }, { 2482, 2483 }, { 2486, 2490 }, { 2493, 2494 }, { 2510, 2511 }, { 2524, 2526 }, { 2527, 2530 }, { 2544, 2546 }, { 2565, 2571 }, { 2575, 2577 }, { 2579, 2601 }, { 2602, 2609 }, { 2610, 2612 }, { 2613, 2615 }, { 2616, 2618 }, { 2649, 2653 }, { 2654, 2655 }, { 2674, 2677 }, { 2693, 2702 }, { 2703, 2706 }, { 2707, 2729 }, { 2730, 2737 }, { 2738, 2740 }, { 2741, 2746 }, { 2749, 2750 }, { 2768, 2769 }, { 2784, 2786 }, { 2821, 2829 }, { 2831, 2833 }, { 2835, 2857 }, { 2858, 2865 }, { 2866, 2868 }, { 2869, 2874 }, { 2877, 2878 }, { 2908, 2910 }, { 2911, 2914 }, { 2929, 2930 }, { 2947, 2948 }, { 2949, 2955 }, { 2958, 2961 }, { 2962, 2966 }, { 2969, 2971 }, { 2972, 2973 }, { 2974, 2976 }, { 2979, 2981 }, { 2984, 2987 }, { 2990, 3002 }, { 3024, 3025 }, { 3077, 3085 }, { 3086, 3089 }, { 3090, 3113 }, { 3114, 3124 }, { 3125, 3130 }, { 3133, 3134 }, { 3160, 3162 }, { 3168, 3170 }, { 3205, 3213 }, { 3214, 3217 }, { 3218, 3241 }, { 3242, 3252 }, { 3253, 3258 }, { 3261, 3262 }, { 3294, 3295 }, { 3296, 3298 }, { 3313, 3315 }, { 3333, 3341 }, { 3342, 3345 }, { 3346, 3387 }, { 3389, 3390 }, { 3406, 3407 }, { 3424, 3426 }, { 3450, 3456 }, { 3461, 3479 }, { 3482, 3506 }, { 3507, 3516 }, { 3517, 3518 }, { 3520, 3527 }, { 3585, 3633 }, { 3634, 3636 }, { 3648, 3654 }, { 3713, 3715 }, { 3716, 3717 }, { 3719, 3721 }, { 3722, 3723 }, { 3725, 3726 }, { 3732, 3736 }, { 3737, 3744 }, { 3745, 3748 }, { 3749, 3750 }, { 3751, 3752 }, { 3754, 3756 }, { 3757, 3761 }, { 3762, 3764 }, { 3773, 3774 }, { 3776, 3781 }, { 3804, 3806 }, { 3840, 3841 }, { 3904, 3912 }, { 3913, 3949 }, { 3976, 3981 }, { 4096, 4139 }, { 4159, 4160 }, { 4176, 4182 }, { 4186, 4190 }, { 4193, 4194 }, { 4197, 4199 }, { 4206, 4209 }, { 4213, 4226 }, { 4238, 4239 }, { 4304, 4347 }, { 4352, 4681 }, { 4682, 4686 }, { 4688, 4695 }, { 4696, 4697 }, { 4698, 4702 }, { 4704, 4745 }, { 4746, 4750 }, { 4752, 4785 }, { 4786, 4790 }, { 4792, 4799 }, { 4800, 4801 }, { 4802, 4806 }, { 4808, 4823 }, { 4824, 4881 }, { 4882, 4886 }, { 4888, 4955 }, { 4992, 5008 }, { 5024, 5109 }, { 5121, 5741 }, { 5743, 5760 }, { 5761, 5787 }, { 5792, 5867 }, { 5888, 5901 }, { 5902, 5906 }, { 5920, 5938 }, { 5952, 5970 }, { 5984, 5997 }, { 5998, 6001 }, { 6016, 6068 }, { 6108, 6109 }, { 6176, 6211 }, { 6212, 6264 }, { 6272, 6313 }, { 6314, 6315 }, { 6320, 6390 }, { 6400, 6429 }, { 6480, 6510 }, { 6512, 6517 }, { 6528, 6572 }, { 6593, 6600 }, { 6656, 6679 }, { 6688, 6741 }, { 6917, 6964 }, { 6981, 6988 }, { 7043, 7073 }, { 7086, 7088 }, { 7104, 7142 }, { 7168, 7204 }, { 7245, 7248 }, { 7258, 7288 }, { 7401, 7405 }, { 7406, 7410 }, { 8501, 8505 }, { 11568, 11622 }, { 11648, 11671 }, { 11680, 11687 }, { 11688, 11695 }, { 11696, 11703 }, { 11704, 11711 }, { 11712, 11719 }, { 11720, 11727 }, { 11728, 11735 }, { 11736, 11743 }, { 12294, 12295 }, { 12348, 12349 }, { 12353, 12439 }, { 12447, 12448 }, { 12449, 12539 }, { 12543, 12544 }, { 12549, 12590 }, { 12593, 12687 }, { 12704, 12731 }, { 12784, 12800 }, { 13312, 19894 }, { 19968, 40908 }, { 40960, 40981 }, { 40982, 42125 }, { 42192, 42232 }, { 42240, 42508 }, { 42512, 42528 }, { 42538, 42540 }, { 42606, 42607 }, { 42656, 42726 }, { 43003, 43010 }, { 43011, 43014 }, { 43015, 43019 }, { 43020, 43043 }, { 43072, 43124 }, { 43138, 43188 }, { 43250, 43256 }, { 43259, 43260 }, { 43274, 43302 }, { 43312, 43335 }, { 43360, 43389 }, { 43396, 43443 }, { 43520, 43561 }, { 43584, 43587 }, { 43588, 43596 }, { 43616, 43632 }, { 43633, 43639 }, { 43642, 43643 }, { 43648, 43696 }, { 43697, 43698 }, { 43701, 43703 }, { 43705, 43710 }, { 43712, 43713 }, { 43714, 43715 }, { 43739, 43741 }, { 43777, 43783 }, { 43785, 43791 }, { 43793, 43799 }, { 43808, 43815 }, { 43816, 43823 }, { 43968, 44003 }, { 44032, 55204 }, { 55216, 55239 }, { 55243, 55292 }, { 63744, 64046 }, { 64048, 64110 }, { 64112, 64218 }, { 64285, 64286 }, { 64287, 64297 }, { 64298, 64311 }, { 64312, 64317 }, { 64318, 64319 }, { 64320, 64322 }, { 64323, 64325 }, { 64326, 64434 }, { 64467, 64830 }, { 64848, 64912 }, { 64914, 64968 }, { 65008, 65020 }, { 65136, 65141 }, { 65142, 65277 }, { 65382, 65392 }, { 65393, 65438 }, { 65440, 65471 }, { 65474, 65480 }, { 65482, 65488 }, { 65490, 65496 }, { 65498, 65501 }, { 65536, 65548 }, { 65549, 65575 }, { 65576, 65595 }, { 65596, 65598 }, { 65599, 65614 }, { 65616, 65630 }, { 65664, 65787 }, { 66176, 66205 }, { 66208, 66257 }, { 66304, 66335 }, { 66352, 66369 }, { 66370, 66378 }, { 66432, 66462 }, { 66464, 66500 }, { 66504, 66512 }, { 66640, 66718 }, { 67584, 67590 }, { 67592, 67593 }, { 67594, 67638 }, { 67639, 67641 }, { 67644, 67645 }, { 67647, 67670 }, { 67840, 67862 }, { 67872, 67898 }, { 68096, 68097 }, { 68112, 68116 }, { 68117, 68120 }, { 68121, 68148 }, { 68192, 68221 }, { 68352, 68406 }, { 68416, 68438 }, { 68448, 68467 }, { 68608, 68681 }, { 69635, 69688 }, { 69763, 69808 }, { 73728, 74607 }, { 77824, 78895 }, { 92160, 92729 }, { 110592, 110594 }, { 131072, 173783 }, { 173824, 177973 }, { 177984, 178206 }, { 194560, 195102 }, { -1, -1 } };
 static unicode::range s_RangePi[] = { { 171, 172 }, { 8216, 8217 }, { 8219, 8221 }, { 8223, 8224 }, { 8249, 8250 }, { 11778, 11779 }, { 11780, 11781 }, { 11785, 11786 }, { 11788, 11789 }, { 11804, 11805 }, { 11808, 11809 }, { -1, -1 } };
 static unicode::range s_RangeMe[] = { { 1160, 1162 }, { 8413, 8417 }, { 8418, 8421 }, { 42608, 42611 }, { -1, -1 } };
 static unicode::range s_RangeLl[] = { { 97, 123 }, { 170, 171 }, { 181, 182 }, { 186, 187 }, { 223, 247 }, { 248, 256 }, { 257, 258 }, { 259, 260 }, { 261, 262 }, { 263, 264 }, { 265, 266 }, { 267, 268 }, { 269, 270 }, { 271, 272 }, { 273, 274 }, { 275, 276 }, { 277, 278 }, { 279, 280 }, { 281, 282 }, { 283, 284 }, { 285, 286 }, { 287, 288 }, { 289, 290 }, { 291, 292 }, { 293, 294 }, { 295, 296 }, { 297, 298 }, { 299, 300 }, { 301, 302 }, { 303, 304 }, { 305, 306 }, { 307, 308 }, { 309, 310 }, { 311, 313 }, { 314, 315 }, { 316, 317 }, { 318, 319 }, { 320, 321 }, { 322, 323 }, { 324, 325 }, { 326, 327 }, { 328, 330 }, { 331, 332 }, { 333, 334 }, { 335, 336 }, { 337, 338 }, { 339, 340 }, { 341, 342 }, { 343, 344 }, { 345, 346 }, { 347, 348 }, { 349, 350 }, { 351, 352 }, { 353, 354 }, { 355, 356 }, { 357, 358 }, { 359, 360 }, { 361, 362 }, { 363, 364 }, { 365, 366 }, { 367, 368 }, { 369, 370 }, { 371, 372 }, { 373, 374 }, { 375, 376 }, { 378, 379 }, { 380, 381 }, { 382, 385 }, { 387, 388 }, { 389, 390 }, { 392, 393 }, { 396, 398 }, { 402, 403 }, { 405, 406 }, { 409, 412 }, { 414, 415 }, { 417, 418 }, { 419, 420 }, { 421, 422 }, { 424, 425 }, { 426, 428 }, { 429, 430 }, { 432, 433 }, { 436, 437 }, { 438, 439 }, { 441, 443 }, { 445, 448 }, { 454, 455 }, { 457, 458 }, { 460, 461 }, { 462, 463 }, { 464, 465 }, { 466, 467 }, { 468, 469 }, { 470, 471 }, { 472, 473 }, { 474, 475 }, { 476, 478 }, { 479, 480 }, { 481, 482 }, { 483, 484 }, { 485, 486 }, { 487, 488 }, { 489, 490 }, { 491, 492 }, { 493, 494 }, { 495, 497 }, { 499, 500 }, { 501, 502 }, { 505, 506 }, { 507, 508 }, { 509, 510 }, { 511, 512 }, { 513, 514 }, { 515, 516 }, { 517, 518 }, { 519, 520 }, { 521, 522 }, { 523, 524 }, { 525, 526 }, { 527, 528 }, { 529, 530 }, { 531, 532 }, { 533, 534 }, { 535, 536 }, { 537, 538 }, { 539, 540 }, { 541, 542 }, { 543, 544 }, { 545, 546 }, { 547, 548 }, { 549, 550 }, { 551, 552 }, { 553, 554 }, { 555, 556 }, { 557, 558 }, { 559, 560 }, { 561, 562 }, { 563, 570 }, { 572, 573 }, { 575, 577 }, { 578, 579 }, { 583, 584 }, { 585, 586 }, { 587, 588 }, { 589, 590 }, { 591, 660 }, { 661, 688 }, { 881, 882 }, { 883, 884 }, { 887, 888 }, { 891, 894 }, { 912, 913 }, { 940, 975 }, { 976, 978 }, { 981, 984 }, { 985, 986 }, { 987, 988 }, { 989, 990 }, { 991, 992 }, { 993, 994 }, { 995, 996 }, { 997, 998 }, { 999, 1000 }, { 1001, 1002 }, { 1003, 1004 }, { 1005, 1006 }, { 1007, 1012 }, { 1013, 1014 }, { 1016, 1017 }, { 1019, 1021 }, { 1072, 1120 }, { 1121, 1122 }, { 1123, 1124 }, { 1125, 1126 }, { 1127, 1128 }, { 1129, 1130 }, { 1131, 1132 }, { 1133, 1134 }, { 1135, 1136 }, { 1137, 1138 }, { 1139, 1140 }, { 1141, 1142 }, { 1143, 1144 }, { 1145, 1146 }, { 1147, 1148 }, { 1149, 1150 }, { 1151, 1152 }, { 1153, 1154 }, { 1163, 1164 }, { 1165, 1166 }, { 1167, 1168 }, { 1169, 1170 }, { 1171, 1172 }, { 1173, 1174 }, { 1175, 1176 }, { 1177, 1178 }, { 1179, 1180 }, { 1181, 1182 }, { 1183, 1184 }, { 1185, 1186 }, { 1187, 1188 }, { 1189, 1190 }, { 1191, 1192 }, { 1193, 1194 }, { 1195, 1196 }, { 1197, 1198 }, { 1199, 1200 }, { 1201, 1202 }, { 1203, 1204 }, { 1205, 1206 }, { 1207, 1208 }, { 1209, 1210 }, { 1211, 1212 }, { 1213, 1214 }, { 1215, 1216 }, { 1218, 1219 }, { 1220, 1221 }, { 1222, 1223 }, { 1224, 1225 }, { 1226, 1227 }, { 1228, 1229 }, { 1230, 1232 }, { 1233, 1234 }, { 1235, 1236 }, { 1237, 1238 }, { 1239, 1240 }, { 1241, 1242 }, { 1243, 1244 }, { 1245, 1246 }, { 1247, 1248 }, { 1249, 1250 }, { 1251, 1252 }, { 1253, 1254 }, { 1255, 1256 }, { 1257, 1258 }, { 1259, 1260 }, { 1261, 1262 }, { 1263, 1264 }, { 1265, 1266 }, { 1267, 1268 }, { 1269, 1270 }, { 1271, 1272 }, { 1273, 1274 }, { 1275, 1276 }, { 1277, 1278 }, { 1279, 1280 }, { 1281, 1282 }, { 1283, 1284 }, { 1285, 1286 }, { 1287, 1288 }, { 1289, 1290 }, { 1291, 1292 }, { 1293, 1294 }, { 1295, 1296 }, { 1297, 1298 }, { 1299, 1300 }, { 1301, 1302 }, { 1303, 1304 }, { 1305, 1306 }, { 1307, 1308 }, { 1309, 1310 }, { 1311, 1312 }, { 1313, 1314 }, { 1315, 1316 }, { 1317, 1318 }, { 1319, 1320 }, { 1377, 1416 }, { 7424, 7468 }, { 7522, 7544 }, { 7545, 7579 }, { 7681, 7682 }, { 7683, 7684 }, { 7685, 7686 }, { 7687, 7688 }, { 7689, 7690 }, { 7691, 7692 }, { 7693, 7694 }, { 7695, 7696 }, { 7697, 7698 }, { 7699, 7700 }, { 7701, 7702 }, { 7703, 7704 }, { 7705, 7706 }, { 7707, 7708 }, { 7709, 7710 }, { 7711, 7712 }, { 7713, 7714 }, { 7715, 7716 }, { 7717, 7718 }, { 7719, 7720 }, { 7721, 7722 }, { 7723, 7724 }, { 7725, 7726 }, { 7727, 7728 }, { 7729, 7730 }, { 7731, 7732 }, { 7733, 7734 }, { 7735, 7736 }, { 7737, 7738 }, { 7739, 7740 }, { 7741, 7742 }, { 7743, 7744 }, { 7745, 7746 }, { 7747, 7748 }, { 7749, 7750 }, { 7751, 7752 }, { 7753, 7754 }, { 7755, 7756 }, { 7757, 7758 }, { 7759, 7760 }, { 7761, 7762 }, { 7763, 7764 }, { 7765, 7766 }, { 7767, 7768 }, { 7769, 7770 }, { 7771, 7772 }, { 7773, 7774 }, { 7775, 7776 }, { 7777, 7778 }, { 7779, 7780 }, { 7781, 7782 }, { 7783, 7784 }, { 7785, 7786 }, { 7787, 7788 }, { 7789, 7790 }, { 7791, 7792 }, { 7793, 7794 }, { 7795, 7796 }, { 7797, 7798 }, { 7799, 7800 }, { 7801, 7802 }, { 7803, 7804 }, { 7805, 7806 }, { 7807, 7808 }, { 7809, 7810 }, { 7811, 7812 }, { 7813, 7814 }, { 7815, 7816 }, { 7817, 7818 }, { 7819, 7820 }, { 7821, 7822 }, { 7823, 7824 }, { 7825, 7826 }, { 7827, 7828 }, { 7829, 7838 }, { 7839, 7840 }, { 7841, 7842 }, { 7843, 7844 }, { 7845, 7846 }, { 7847, 7848 }, { 7849, 7850 }, { 7851, 7852 }, { 7853, 7854 }, { 7855, 7856 }, { 7857, 7858 }, { 7859, 7860 }, { 7861, 7862 }, { 7863, 7864 }, { 7865, 7866 }, { 7867, 7868 }, { 7869, 7870 }, { 7871, 7872 }, { 7873, 7874 }, { 7875, 7876 }, { 7877, 7878 }, { 7879, 7880 }, { 7881, 7882 }, { 7883, 7884 }, { 7885, 7886 }, { 7887, 7888 }, { 7889, 7890 }, { 7891, 7892 }, { 7893, 7894 }, { 7895, 7896 }, { 7897, 7898 }, { 7899, 7900 }, { 7901, 7902 }, { 7903, 7904 }, { 7905, 7906 }, { 7907, 7908 }, { 7909, 7910 }, { 7911, 7912 }, { 7913, 7914 }, { 7915, 7916 }, { 7917, 7918 }, { 7919, 7920 }, { 7921, 7922 }, { 7923, 7924 }, { 7925, 7926 }, { 7927, 7928 }, { 7929, 7930 }, { 7931, 7932 }, { 7933, 7934 }, { 7935, 7944 }, { 7952, 7958 }, { 7968, 7976 }, { 7984, 7992 }, { 8000, 8006 }, { 8016, 8024 }, { 8032, 8040 }, { 8048, 8062 }, { 8064, 8072 }, { 8080, 8088 }, { 8096, 8104 }, { 8112, 8117 }, { 8118, 8120 }, { 8126, 8127 }, { 8130, 8133 }, { 8134, 8136 }, { 8144, 8148 }, { 8150, 8152 }, { 8160, 8168 }, { 8178, 8181 }, { 8182, 8184 }, { 8458, 8459 }, { 8462, 8464 }, { 8467, 8468 }, { 8495, 8496 }, { 8500, 8501 }, { 8505, 8506 }, { 8508, 8510 }, { 8518, 8522 }, { 8526, 8527 }, { 8580, 8581 }, { 11312, 11359 }, { 11361, 11362 }, { 11365, 11367 }, { 11368, 11369 }, { 11370, 11371 }, { 11372, 11373 }, { 11377, 11378 }, { 11379, 11381 }, { 11382, 11389 }, { 11393, 11394 }, { 11395, 11396 }, { 11397, 11398 }, { 11399, 11400 }, { 11401, 11402 }, { 11403, 11404 }, { 11405, 11406 }, { 11407, 11408 }, { 11409, 11410 }, { 11411, 11412 }, { 11413, 11414 }, { 11415, 11416 }, { 11417, 11418 }, { 11419, 11420 }, { 11421, 11422 }, { 11423, 11424 }, { 11425, 11426 }, { 11427, 11428 }, { 11429, 11430 }, { 11431, 11432 }, { 11433, 11434 }, { 11435, 11436 }, { 11437, 11438 }, { 11439, 11440 }, { 11441, 11442 }, { 11443, 11444 }, { 11445, 11446 }, { 11447, 11448 }, { 11449, 11450 }, { 11451, 11452 }, { 11453, 11454 }, { 11455, 11456 }, { 11457, 11458 }, { 11459, 11460 }, { 11461, 11462 }, { 11463, 11464 }, { 11465, 11466 }, { 11467, 11468 }, { 11469, 11470 }, { 11471, 11472 }, { 11473, 11474 }, { 11475, 11476 }, { 11477, 11478 }, { 11479, 11480 }, { 11481, 11482 }, { 11483, 11484 }, { 11485, 11486 }, { 11487, 11488 }, { 11489, 11490 }, { 11491, 11493 }, { 11500, 11501 }, { 11502, 11503 }, { 11520, 11558 }, { 42561, 42562 }, { 42563, 42564 }, { 42565, 42566 }, { 42567, 42568 }, { 42569, 42570 }, { 42571, 42572 }, { 42573, 42574 }, { 42575, 42576 }, { 42577, 42578 }, { 42579, 42580 }, { 42581, 42582 }, { 42583, 42584 }, { 42585, 42586 }, { 42587, 42588 }, { 42589, 42590 }, { 42591, 42592 }, { 42593, 42594 }, { 42595, 42596 }, { 42597, 42598 }, { 42599, 42600 }, { 42601, 42602 }, { 42603, 42604 }, { 42605, 42606 }, { 42625, 42626 }, { 42627, 42628 }, { 42629, 42630 }, { 42631, 42632 }, { 42633, 42634 }, { 42635, 42636 }, { 42637, 42638 }, { 42639, 42640 }, { 42641, 42642 }, { 42643, 42644 }, { 42645, 42646 }, { 42647, 42648 }, { 42787, 42788 }, { 42789, 42790 }, { 42791, 42792 }, { 42793, 42794 }, { 42795, 42796 }, { 42797, 42798 }, { 42799, 42802 }, { 42803, 42804 }, { 42805, 42806 }, { 42807, 42808 }, { 42809, 42810 }, { 42811, 42812 }, { 42813, 42814 }, { 42815, 42816 }, { 42817, 42818 }, { 42819, 42820 }, { 42821, 42822 }, { 42823, 42824 }, { 42825, 42826 }, { 42827, 42828 }, { 42829, 42830 }, { 42831, 42832 }, { 42833, 42834 }, { 42835, 42836 }, { 42837, 42838 }, { 42839, 42840 }, { 42841, 42842 }, { 42843, 42844 }, { 42845, 42846 }, { 42847, 42848 }, { 42849, 42850 }, { 42851, 42852 }, { 42853, 42854 }, { 42855, 42856 }, { 42857, 42858 }, { 42859, 42860 }, { 42861, 42862 }, { 42863, 42864 }, { 42865, 42873 }, { 42874, 42875 }, { 42876, 42877 }, { 42879, 42880 }, { 42881, 42882 }, { 42883, 42884 }, { 42885, 42886 }, { 42887, 42888 }, { 42892, 42893 }, { 42894, 42895 }, { 42897, 42898 }, { 42913, 42914 }, { 42915, 42916 }, { 42917, 42918 }, { 42919, 42920 }, { 42921, 42922 }, { 43002, 43003 }, { 64256, 64263 }, { 64275, 64280 }, { 65345, 65371 }, { 66600, 66640 }, { 119834, 119860 }, { 119886, 119893 }, { 119894, 119912 }, { 119938, 119964 }, { 119990, 119994 }, { 119995, 119996 }, { 119997, 120004 }, { 120005, 120016 }, { 120042, 120068 }, { 120094, 120120 }, { 120146, 120172 }, { 120198, 120224 }, { 120250, 120276 }, { 120302, 120328 }, { 120354, 120380 }, { 120406, 120432 }, { 120458, 120486 }, { 120514, 120539 }, { 120540, 120546 }, { 120572, 120597 }, { 120598, 120604 }, { 120630, 120655 }, { 120656, 120662 }, { 120688, 120713 }, { 120714, 120720 }, { 120746, 120771 }, { 120772, 120778 }, { 120779, 120780 }, { -1, -1 } };
-- 
2.43.0


From 5eed5adc2bac37fa84b2d993e499c151acc93b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:50 +0000
Subject: [PATCH 39/48] fix: FIRST of an EBNF item left out what can begin its
 rules when their first items can be empty

---
 TameParse/ContextFree/ebnf_items.cpp | 34 +++++++---------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/TameParse/ContextFree/ebnf_items.cpp b/TameParse/ContextFree/ebnf_items.cpp
index a062241..690b44e 100644
--- a/TameParse/ContextFree/ebnf_items.cpp
+++ b/TameParse/ContextFree/ebnf_items.cpp
@@ -186,13 +186,8 @@ item_set ebnf_optional::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add the items that can begin the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;
 }
@@ -238,11 +233,8 @@ item_set ebnf_repeating::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    }
+    // Add the items that can begin the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;
 }
@@ -290,13 +282,8 @@ item_set ebnf_repeating_optional::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add the items that can begin the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;    
 }
@@ -354,13 +341,8 @@ item_set ebnf_alternate::first(const grammar& gram) const {
         // Get the rule
         const rule& r = **nextRule;
         
-        // Add items if the rule has a first item
-        if (r.items().size() > 0) {
-            const item_set& ruleItems = gram.first(*(r.items()[0]));
-            result.merge(ruleItems);
-        } else {
-            result.insert(the_empty_item);
-        }
+        // Add the items that can begin the rule
+        result.merge(gram.first_for_rule(r));
     }
     
     return result;
-- 
2.43.0


From 07a685d4d6fc0652fe5bf062c10d5fde1b46c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:50 +0000
Subject: [PATCH 40/48] fix: a later rule of a nonterminal that starts with an
 item that can be empty removed the empty item from its FIRST set

---
 TameParse/ContextFree/standard_items.cpp | 38 ++----------------------
 1 file changed, 2 insertions(+), 36 deletions(-)

diff --git a/TameParse/ContextFree/standard_items.cpp b/TameParse/ContextFree/standard_items.cpp
index a311b3e..c0bf743 100644
--- a/TameParse/ContextFree/standard_items.cpp
+++ b/TameParse/ContextFree/standard_items.cpp
@@ -78,10 +78,6 @@ item::kind nonterminal::type() const {
     return item::nonterminal;
 }
 
-/// \brief Constant empty item
-static const empty_item an_empty_item;
-static item_container an_empty_item_c((item*)&an_empty_item, false);
-
 /// \brief Computes the closure of this rule in the specified grammar
 void nonterminal::closure(const lr1_item& item, lr1_item_set& state, const grammar& gram) const {
     // Get the rules for this nonterminal
@@ -119,38 +115,8 @@ item_set nonterminal::first(const grammar& gram) const {
     
     // Merge in the first set for each of the initial symbols
     for (rule_list::const_iterator nextRule = rules.begin(); nextRule != rules.end(); ++nextRule) {
-        // Get the items for this rule
-        const item_list& ruleItems = (*nextRule)->items();
-        
-        // Add the empty item if this is an empty rule
-        if (ruleItems.size() == 0) {
-            result.insert(an_empty_item_c);
-            continue;
-        }
-        
-        // Get the first set for the first item in this rule
-        const item_set& ruleFirst = gram.first(ruleItems[0]);
-
-        // Insert into the result
-        result.merge(ruleFirst);
-
-        if (ruleFirst.contains(an_empty_item_c)) {
-            // If there's an empty item, then merge the first sets from the later parts of the rule
-            int pos;
-            for (pos = 1; pos < (int) ruleItems.size(); ++pos) {
-                // Remove the empty item from the current set
-                result.erase(an_empty_item);
-                
-                // Get the first set for the next item
-                const item_set& nextFirst = gram.first(*(ruleItems[pos]));
-                
-                // Merge it with the current set
-                result.merge(nextFirst);
-                
-                // Stop if there's no longer an empty item
-                if (!nextFirst.contains(an_empty_item_c)) break;
-            }
-        }
+        // Merge in the first set for this rule (the empty item is only added if the whole of this rule can be empty)
+        result.merge(gram.first_for_rule(**nextRule));
     }
 
     return result;
-- 
2.43.0


From b205fed17a39f749652d99ad2c00198848a21ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:50 +0000
Subject: [PATCH 41/48] fix: FIRST sets of items that depend on each other were
 cached before they were complete

---
 TameParse/ContextFree/grammar.cpp | 42 ++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index f4cbff7..3c50389 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -242,14 +242,44 @@ const item_set& grammar::first(const item_container& item) const {
     // Return the value we found if it's already in the cache
     if (found != m_CachedFirstSets.end()) return found->second;
     
-    // Not found: create an empty item set so recursive calls to this method terminate
-    found = m_CachedFirstSets.insert(pair<item_container, item_set>(item, item_set(this))).first;
+    // Not found: create empty item sets for this item and everything it refers to, so recursive calls to this method terminate
+    vector<item_set_map::iterator> toCompute;
+    toCompute.push_back(m_CachedFirstSets.insert(pair<item_container, item_set>(item, item_set(this))).first);
     
-    // Ask the item for its first set, and update the cache
-    found->second = item->first(*this);
+    for (size_t pos = 0; pos < toCompute.size(); ++pos) {
+        // Get the rules for this item
+        const item_container&   nextItem    = toCompute[pos]->first;
+        const ebnf*             ebnfItem    = nextItem->cast_ebnf();
+        rule_list               rules;
+        
+        if (ebnfItem) {
+            rules.assign(ebnfItem->first_rule(), ebnfItem->last_rule());
+        } else if (nextItem->type() == contextfree::item::nonterminal) {
+            rules = rules_for_nonterminal(nextItem->symbol());
+        }
+        
+        // Add any items in these rules that aren't in the cache yet
+        for (rule_list::const_iterator nextRule = rules.begin(); nextRule != rules.end(); ++nextRule) {
+            for (rule::iterator ruleItem = (*nextRule)->begin(); ruleItem != (*nextRule)->end(); ++ruleItem) {
+                pair<item_set_map::iterator, bool> added = m_CachedFirstSets.insert(pair<item_container, item_set>(*ruleItem, item_set(this)));
+                if (added.second) toCompute.push_back(added.first);
+            }
+        }
+    }
     
-    // Return the newly added item (have to do another lookup as map doesn't have a replace operator)
-    return found->second;
+    // Ask the items for their first sets, and update the cache. The items can depend on each other, so the sets are only
+    // complete once none of them change any more
+    bool changed = true;
+    while (changed) {
+        changed = false;
+        
+        for (size_t pos = toCompute.size(); pos > 0; --pos) {
+            if (toCompute[pos-1]->second.merge(toCompute[pos-1]->first->first(*this))) changed = true;
+        }
+    }
+    
+    // Return the newly added item
+    return toCompute[0]->second;
 }
 
 /// \brief Computes the first set for the specified rule (or retrieves the cached version)
-- 
2.43.0


From 8a70ed70f82c40eece30ca94bbe9808c73b04ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:00 +0000
Subject: [PATCH 42/48] fix: mirror the strong action for weak symbols that
 only have reductions

---
 TameParse/Lr/weak_symbols.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Lr/weak_symbols.cpp b/TameParse/Lr/weak_symbols.cpp
index e6b0a85..e9cce11 100644
--- a/TameParse/Lr/weak_symbols.cpp
+++ b/TameParse/Lr/weak_symbols.cpp
@@ -283,7 +283,7 @@ void weak_symbols::rewrite_actions(int state, lr_action_set& actions, const lalr
                 map<int, int>::iterator found = weakSymbols.find(sym);
                 if (found != weakSymbols.end()) {
                     found->second--;
-                    if (found->second < 0) {
+                    if (found->second <= 0) {
                         weakSymbols.erase(found);
                     }
                 }
-- 
2.43.0


From f731018b68591238a6be25569923c355f8f2dbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:15 +0000
Subject: [PATCH 43/48] fix: weak symbols given as a map are weak

---
 TameParse/Lr/weak_symbols.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TameParse/Lr/weak_symbols.cpp b/TameParse/Lr/weak_symbols.cpp
index e9cce11..67a495f 100644
--- a/TameParse/Lr/weak_symbols.cpp
+++ b/TameParse/Lr/weak_symbols.cpp
@@ -43,6 +43,10 @@ weak_symbols::weak_symbols(const item_map& map, const grammar* gram)
 : m_StrongToWeak(map)
 , m_WeakSymbols(gram)
 , m_Grammar(gram) {
+    // All of the symbols that a strong symbol maps to are weak
+    for (item_map::const_iterator strong = m_StrongToWeak.begin(); strong != m_StrongToWeak.end(); ++strong) {
+        m_WeakSymbols.merge(strong->second);
+    }
 }
 
 /// \brief Copy constructor
-- 
2.43.0


From 645441479f55d86fef11b4d52e953d1299f62c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 44/48] fix: the LR(1) rewriter resolved the conflicts of
 ambiguous grammars

---
 TameParse/Lr/lr1_rewriter.cpp | 68 ++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 37 deletions(-)

diff --git a/TameParse/Lr/lr1_rewriter.cpp b/TameParse/Lr/lr1_rewriter.cpp
index 1cf4313..476b30a 100644
--- a/TameParse/Lr/lr1_rewriter.cpp
+++ b/TameParse/Lr/lr1_rewriter.cpp
@@ -72,9 +72,6 @@ void lr1_rewriter::rewrite_actions(int stateId, lr_action_set& actions, const la
     // Nothing more to do if we found no conflicts
     if (!hasConflict) return;
 
-    // Fetch the state
-    const lalr_state& state = *builder.machine().state_with_id(stateId);
-
     // Find items which have reduce/reduce conflicts
     // (LALR parsers can have reduce/reduce conflicts that LR(1) parsers do not)
     for (item_reductions::iterator reduce = reductions.begin(); reduce != reductions.end(); ++reduce) {
@@ -84,44 +81,41 @@ void lr1_rewriter::rewrite_actions(int stateId, lr_action_set& actions, const la
         // Get the terminal that the reduction happens on
         item_container reduceTerminal(reduce->first);
 
-        // Find the target states for this item and nonterminal
-        map<int, set<int> > targetStateForItem;
-
-        for (int lrItemId = 0; lrItemId < state.count_items(); ++lrItemId) {
-            // Fetch this item
-            const lr0_item& lrItem = *state[lrItemId];
-
-            // This item must cause a reduction
-            if (!lrItem.at_end()) continue;
+        // Find the states that each of the reductions can return to (pre-goto)
+        // TODO: if the goto produces another reduction, then we need to check that instead
+        vector<set<int> > targetStates(reduce->second.size());
 
-            // It must contain the target terminal in the lookahead
-            const item_set& lookahead = state.lookahead_for(lrItemId);
-            if (!lookahead.contains(reduceTerminal)) continue;
+        for (int sourceId = 0; sourceId < builder.count_states(); ++sourceId) {
+            // The closure of this state is only needed if one of the rules can begin here
+            lr1_item_set closure;
 
-            // Find the lookahead source for this item
-            typedef lalr_builder::lr_item_id lr_item_id;
-            set<lr_item_id> sourceItems;
-            builder.find_lookahead_source(stateId, lrItemId, reduceTerminal, sourceItems);
+            for (size_t reduction = 0; reduction < reduce->second.size(); ++reduction) {
+                // Follow the items in the rule from this state
+                const rule& reduceRule  = *reduce->second[reduction]->rule();
+                int         finalState  = sourceId;
 
-            // Find the states that this can reduce to (pre-goto)
-            // TODO: if the goto produces another reduction, then we need to check that instead
-            set<int>& targetStates = targetStateForItem[lrItemId];
-            for (set<lr_item_id>::const_iterator reduceTo = sourceItems.begin(); reduceTo != sourceItems.end(); ++reduceTo) {
-                // Check that this reduces one of our conflicted nonterminals
-                const lalr_state&   reduceState = *builder.machine().state_with_id(reduceTo->state_id);
-                const lr0_item&     reduceItem  = *reduceState[reduceTo->item_id];
+                for (rule::iterator ruleItem = reduceRule.begin(); ruleItem != reduceRule.end() && finalState >= 0; ++ruleItem) {
+                    const lalr_machine::transition_set&             transitions = builder.machine().transitions_for_state(finalState);
+                    lalr_machine::transition_set::const_iterator    next        = transitions.find(*ruleItem);
 
-                // Ignore items at the end (which should only come up via lookahead propagation)
-                if (reduceItem.at_end()) continue;
+                    finalState = next != transitions.end() ? next->second : -1;
+                }
 
-                // Fetch the item that this item will produce a goto on
-                const item_container& gotoItem = reduceItem.rule()->items()[reduceItem.offset()];
+                // They must lead to the state with the conflict
+                if (finalState != stateId) continue;
 
-                // It must equal the nonterminal that we're looking for
-                if (gotoItem != lrItem.rule()->nonterminal()) continue;
+                // The rule must begin here, and be followed by the target terminal
+                if (closure.empty()) {
+                    lalr_builder::generate_closure(*builder.machine().state_with_id(sourceId), closure, &builder.gram());
+                }
 
-                // Add this state
-                targetStates.insert(reduceTo->state_id);
+                for (lr1_item_set::const_iterator closureItem = closure.begin(); closureItem != closure.end(); ++closureItem) {
+                    if ((*closureItem)->offset() == 0
+                        && *(*closureItem)->rule() == reduceRule
+                        && (*closureItem)->lookahead().contains(reduceTerminal)) {
+                        targetStates[reduction].insert(sourceId);
+                    }
+                }
             }
         }
 
@@ -129,9 +123,9 @@ void lr1_rewriter::rewrite_actions(int stateId, lr_action_set& actions, const la
         set<int>    usedStates;
         bool        canResolve = true;
 
-        for (map<int, set<int> >::iterator itemStates = targetStateForItem.begin(); itemStates != targetStateForItem.end(); ++itemStates) {
+        for (vector<set<int> >::iterator itemStates = targetStates.begin(); itemStates != targetStates.end(); ++itemStates) {
             // Check the target states for this item
-            for (set<int>::iterator targetState = itemStates->second.begin(); targetState != itemStates->second.end(); ++targetState) {
+            for (set<int>::iterator targetState = itemStates->begin(); targetState != itemStates->end(); ++targetState) {
                 // Can't resolve this conflict if more than one item can produce this state
                 if (usedStates.find(*targetState) != usedStates.end()) {
                     canResolve = false;
@@ -150,7 +144,7 @@ void lr1_rewriter::rewrite_actions(int stateId, lr_action_set& actions, const la
         if (canResolve) {
             for (item_list::iterator originalAct = reduce->second.begin()+1; originalAct != reduce->second.end(); ++originalAct) {
                 // Create a weak reduce action
-                lr_action_container weakReduce(new lr_action(lr_action::act_weakreduce, (*originalAct)->item(), (*originalAct)->next_state(), (*originalAct)->rule()));
+                lr_action_container weakReduce(new lr_action(lr_action::act_weakreduce, (*originalAct)->item(), (*originalAct)->next_state(), (*originalAct)->rule()), true);
 
                 // Replace the original action in the table
                 actions.erase(*originalAct);
-- 
2.43.0


From f389d71dc21baf51af316dbd636cc8e322cbb193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:15 +0000
Subject: [PATCH 45/48] fix: assigning a container from within its own item
 read freed memory

---
 TameParse/Util/container.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/TameParse/Util/container.h b/TameParse/Util/container.h
index 77c4a3b..42c4604 100644
--- a/TameParse/Util/container.h
+++ b/TameParse/Util/container.h
@@ -229,9 +229,12 @@ namespace util {
         inline container<ItemType, ItemAllocator>& operator=(const container<ItemType, ItemAllocator>& assignFrom) {
             if (&assignFrom == this) return *this;
             
-            assignFrom.m_Ref->retain();
+            // Releasing the old item might destroy assignFrom, if it is part of that item
+            reference* newRef = assignFrom.m_Ref;
+            
+            newRef->retain();
             m_Ref->release();
-            m_Ref = assignFrom.m_Ref;
+            m_Ref = newRef;
 
             return *this;
         }
-- 
2.43.0


From 4ec4e6c744700bf5dc904d46626d579d6bb8d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:15 +0000
Subject: [PATCH 46/48] fix: assigning a syntax_ptr from within its own object
 read freed memory

---
 TameParse/Util/syntax_ptr.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/TameParse/Util/syntax_ptr.h b/TameParse/Util/syntax_ptr.h
index c237bb7..ee7374e 100644
--- a/TameParse/Util/syntax_ptr.h
+++ b/TameParse/Util/syntax_ptr.h
@@ -102,6 +102,10 @@ namespace util {
             // Nothing to do if the reference is the same
             if (m_Reference == assignFrom.m_Reference) return *this;
             
+            // Retain the reference in the other object (which might be part of the value that's about to be released)
+            syntax_ptr_reference* newReference = assignFrom.m_Reference;
+            ++newReference->usageCount;
+            
             // Deallocate the reference
             m_Reference->usageCount--;
             if (m_Reference->usageCount <= 0) {
@@ -109,11 +113,9 @@ namespace util {
                 m_Reference->value = NULL;
                 delete m_Reference;
             }
-            m_Reference = NULL;
             
             // Switch to the reference in the other object
-            m_Reference = assignFrom.m_Reference;
-            ++m_Reference->usageCount;
+            m_Reference = newReference;
             
             return *this;
         }
-- 
2.43.0


From 94c44be694fb4789042905646d86b3d98ee049bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:56 +0000
Subject: [PATCH 47/48] fix: the lowest level of a symbol table was never
 released, and shared by copies

---
 TameParse/Dfa/symbol_table.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/TameParse/Dfa/symbol_table.h b/TameParse/Dfa/symbol_table.h
index 2348f34..7c1b056 100644
--- a/TameParse/Dfa/symbol_table.h
+++ b/TameParse/Dfa/symbol_table.h
@@ -264,6 +264,22 @@ namespace dfa {
             Symbols         = NULL;
         }
         
+        /// \brief Creates a copy of an existing symbol level
+        symbol_level(const symbol_level& copyFrom) {
+            DefaultSymbol   = copyFrom.DefaultSymbol;
+            Symbols         = NULL;
+            
+            if (copyFrom.Symbols) {
+                Symbols = new int[c_MaxIndex];
+                for (int index=0; index < c_MaxIndex; ++index) Symbols[index] = copyFrom.Symbols[index];
+            }
+        }
+        
+        /// \brief Destructor
+        ~symbol_level() {
+            delete[] Symbols;
+        }
+        
         /// \brief Sets all the symbols in the specified range to the specified symbol. The range must overlap this item.
         void add_range(int base, const range<int>& range, int symbol) {
             // Work out the initial index in this table
@@ -362,6 +378,10 @@ namespace dfa {
             // Return the new table
             return newTable;
         }
+        
+    private:
+        /// \brief Disabled assignment
+        symbol_level<int, mask, shift>& operator=(const symbol_level<int, mask, shift>& assignFrom);
     };
     
     ///
-- 
2.43.0


From 1cdbf48a356026544640dfa09f793e3adcf68438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:29 +0000
Subject: [PATCH 48/48] fix: a lexer that was given no other lexer to use did
 not release the one it compiled

---
 TameParse/Dfa/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Dfa/lexer.cpp b/TameParse/Dfa/lexer.cpp
index 5121dac..ccdcdfc 100644
--- a/TameParse/Dfa/lexer.cpp
+++ b/TameParse/Dfa/lexer.cpp
@@ -63,7 +63,7 @@ lexer::lexer(const ndfa& dfa)
 lexer::lexer(basic_lexer* lexer, bool ownsLexer)
 : m_Ndfa(NULL)
 , m_Lexer(lexer)
-, m_OwnsLexer(ownsLexer) {
+, m_OwnsLexer(ownsLexer || !lexer) {       // (A lexer that is compiled later is always our own)
     if (m_Lexer == NULL) {
         m_Ndfa = new ndfa_regex();
     }
-- 
2.43.0

