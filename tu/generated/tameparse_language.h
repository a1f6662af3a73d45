///
/// tameparse_language.h
/// Parser file generated by TameParse at Thu 2026/11/12 05:05:24
///

#ifndef TAMEPARSE_PARSER_YY_TAMEPARSE_LANGUAGE
#define TAMEPARSE_PARSER_YY_TAMEPARSE_LANGUAGE

#include "TameParse/Util/syntax_ptr.h"
#include "TameParse/Dfa/lexer.h"
#include "TameParse/Lr/parser.h"
#include "TameParse/Lr/parser_tables.h"

namespace yy_language {
class yy_tameparse_language {

public:
    class t {
    public:
        static const int yy_language = 0;
        static const int yy_import = 1;
        static const int yy_lexer_symbols = 2;
        static const int yy_lexer = 3;
        static const int yy_ignore = 4;
        static const int yy_weak = 5;
        static const int yy_keywords = 6;
        static const int yy_grammar = 7;
        static const int yy_replace = 8;
        static const int yy_parser = 9;
        static const int yy_test = 10;
        static const int yy_from = 11;
        static const int yy_case = 12;
        static const int yy_sensitive = 13;
        static const int yy_insensitive = 14;
        static const int yy_precedence = 15;
        static const int yy_left = 16;
        static const int yy_right = 17;
        static const int yy_non_associative = 18;
        static const int yy_non_assoc = 19;
        static const int yy_conflict = 20;
        static const int yy_shift = 21;
        static const int yy_reduce = 22;
        static const int yy_can_clash = 23;
        static const int yy_identifier = 24;
        static const int yy_nonterminal = 25;
        static const int yy_regex = 26;
        static const int yy_string = 27;
        static const int yy_character = 28;
        static const int yy_newline = 29;
        static const int yy_whitespace = 30;
        static const int yy_comment = 31;
        static const int yy_c_comment = 32;
        static const int yy__opencurly_ = 33;
        static const int yy__closecurly_ = 34;
        static const int yy__colon_ = 35;
        static const int yy__equals_ = 36;
        static const int yy__pipe__equals_ = 37;
        static const int yy__dot_ = 38;
        static const int yy__pipe_ = 39;
        static const int yy__star_ = 40;
        static const int yy__plus_ = 41;
        static const int yy__question_ = 42;
        static const int yy__openparen_ = 43;
        static const int yy__closeparen_ = 44;
        static const int yy__opensquare__equals__greaterthan_ = 45;
        static const int yy__closesquare_ = 46;
        static const int yy__opensquare_ = 47;
        static const int yy__comma_ = 48;
        static const int yy__exclamation__equals_ = 49;
    };

public:
    class nt {
    public:
        static const int yy_Parser_Language = 1;
        static const int yy_TopLevel_Block = 2;
        static const int yy_Language_Block = 4;
        static const int yy_Import_Block = 5;
        static const int yy_Parser_Block = 6;
        static const int yy_Test_Block = 7;
        static const int yy_Language_Inherits = 8;
        static const int yy_Language_Definition = 10;
        static const int yy_Lexer_Symbols_Definition = 12;
        static const int yy_Lexer_Definition = 13;
        static const int yy_Ignore_Definition = 14;
        static const int yy_Keywords_Definition = 15;
        static const int yy_Grammar_Definition = 16;
        static const int yy_Precedence_Definition = 17;
        static const int yy_Lexer_Symbols_Modifier = 18;
        static const int yy_Lexeme_Definition = 20;
        static const int yy_Lexer_Modifier = 22;
        static const int yy_Keyword_Definition = 25;
        static const int yy_Nonterminal_Definition = 32;
        static const int yy_Production = 35;
        static const int yy_Simple_Ebnf_Item = 38;
        static const int yy_Ebnf_Item = 40;
        static const int yy_Nonterminal = 41;
        static const int yy_Semantic_Specification = 42;
        static const int yy_Terminal = 44;
        static const int yy_Guard = 45;
        static const int yy_Basic_Terminal = 46;
        static const int yy_Semantic_Item = 47;
        static const int yy_Precedence_Item = 49;
        static const int yy_Equal_Precedence_Items = 51;
        static const int yy_Parser_StartSymbol = 52;
        static const int yy_Test_Definition = 54;
        static const int yy_Test_Specification = 56;
    };

public:
    static const int number_of_symbol_sets = 146;

        static const int number_of_lexer_states = 268;

public:
    static const dfa::lexer lexer;

public:
    static const lr::parser_tables lr_tables;

public:
    class syntax_node {
    public:
        virtual ~syntax_node();
        virtual std::wstring to_string();
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class terminal : public syntax_node {
    private:
        dfa::lexeme_container m_Lexeme;

    public:
        terminal(const dfa::lexeme_container& lexeme);

        inline const dfa::lexeme_container& get_lexeme() const { return m_Lexeme; }

        template<class symbol_type> inline std::basic_string<symbol_type> content() const { return m_Lexeme->content<symbol_type>(); }

        virtual dfa::position pos() const;

        virtual dfa::position final_pos() const;
    };

    class yy_language_n;

    class yy_import_n;

    class yy_lexer_symbols_n;

    class yy_lexer_n;

    class yy_ignore_n;

    class yy_weak_n;

    class yy_keywords_n;

    class yy_grammar_n;

    class yy_replace_n;

    class yy_parser_n;

    class yy_test_n;

    class yy_from_n;

    class yy_case_n;

    class yy_sensitive_n;

    class yy_insensitive_n;

    class yy_precedence_n;

    class yy_left_n;

    class yy_right_n;

    class yy_non_associative_n;

    class yy_non_assoc_n;

    class yy_conflict_n;

    class yy_shift_n;

    class yy_reduce_n;

    class yy_can_clash_n;

    class yy_identifier_n;

    class yy_nonterminal_n;

    class yy_regex_n;

    class yy_string_n;

    class yy_character_n;

    class yy_newline_n;

    class yy_whitespace_n;

    class yy_comment_n;

    class yy_c_comment_n;

    class yy__opencurly__n;

    class yy__closecurly__n;

    class yy__colon__n;

    class yy__equals__n;

    class yy__pipe__equals__n;

    class yy__dot__n;

    class yy__pipe__n;

    class yy__star__n;

    class yy__plus__n;

    class yy__question__n;

    class yy__openparen__n;

    class yy__closeparen__n;

    class yy__opensquare__equals__greaterthan__n;

    class yy__closesquare__n;

    class yy__opensquare__n;

    class yy__comma__n;

    class yy__exclamation__equals__n;

    class yy_epsilon_n;

    class yy_Parser_Language_n;

    class yy_TopLevel_Block_n;

    class yy_list_of_TopLevel_Block_n;

    class yy_Language_Block_n;

    class yy_Import_Block_n;

    class yy_Parser_Block_n;

    class yy_Test_Block_n;

    class yy_Language_Inherits_n;

    class yy_optional_Language_Inherits_n;

    class yy_Language_Definition_n;

    class yy_list_of_Language_Definition_n;

    class yy_Lexer_Symbols_Definition_n;

    class yy_Lexer_Definition_n;

    class yy_Ignore_Definition_n;

    class yy_Keywords_Definition_n;

    class yy_Grammar_Definition_n;

    class yy_Precedence_Definition_n;

    class yy_Lexer_Symbols_Modifier_n;

    class yy_list_of_Lexer_Symbols_Modifier_n;

    class yy_Lexeme_Definition_n;

    class yy_list_of_Lexeme_Definition_n;

    class yy_Lexer_Modifier_n;

    class yy_list_of_Lexer_Modifier_n;

    class yy_Keyword_Definition_n;

    class yy_list_of_Keyword_Definition_n;

    class yy_one_of__equals__or__pipe__equals__n;

    class yy_one_of_string_or_character_n;

    class yy_one_of_regex_or_one_of_string_or_character_n;

    class yy_Nonterminal_Definition_n;

    class yy_list_of_Nonterminal_Definition_n;

    class yy_Production_n;

    class yy_list_of__pipe__Production_n;

    class yy_Simple_Ebnf_Item_n;

    class yy_list_of_Simple_Ebnf_Item_n;

    class yy_Ebnf_Item_n;

    class yy_Nonterminal_n;

    class yy_Semantic_Specification_n;

    class yy_optional_Semantic_Specification_n;

    class yy_Terminal_n;

    class yy_Guard_n;

    class yy_Basic_Terminal_n;

    class yy_Semantic_Item_n;

    class yy_list_of__comma__Semantic_Item_n;

    class yy_Precedence_Item_n;

    class yy_list_of_Precedence_Item_n;

    class yy_Equal_Precedence_Items_n;

    class yy_Parser_StartSymbol_n;

    class yy_list_of_Parser_StartSymbol_n;

    class yy_Test_Definition_n;

    class yy_list_of_Test_Definition_n;

    class yy_Test_Specification_n;

    class yy_list_of_Test_Specification_n;

    class yy_end_of_input_n;

    class yy_end_of_guard_n;

    // yy_language
    class yy_language_n : public terminal {
    public:
        yy_language_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_import
    class yy_import_n : public terminal {
    public:
        yy_import_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_lexer_symbols
    class yy_lexer_symbols_n : public terminal {
    public:
        yy_lexer_symbols_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_lexer
    class yy_lexer_n : public terminal {
    public:
        yy_lexer_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_ignore
    class yy_ignore_n : public terminal {
    public:
        yy_ignore_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_weak
    class yy_weak_n : public terminal {
    public:
        yy_weak_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_keywords
    class yy_keywords_n : public terminal {
    public:
        yy_keywords_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_grammar
    class yy_grammar_n : public terminal {
    public:
        yy_grammar_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_replace
    class yy_replace_n : public terminal {
    public:
        yy_replace_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_parser
    class yy_parser_n : public terminal {
    public:
        yy_parser_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_test
    class yy_test_n : public terminal {
    public:
        yy_test_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_from
    class yy_from_n : public terminal {
    public:
        yy_from_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_case
    class yy_case_n : public terminal {
    public:
        yy_case_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_sensitive
    class yy_sensitive_n : public terminal {
    public:
        yy_sensitive_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_insensitive
    class yy_insensitive_n : public terminal {
    public:
        yy_insensitive_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_precedence
    class yy_precedence_n : public terminal {
    public:
        yy_precedence_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_left
    class yy_left_n : public terminal {
    public:
        yy_left_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_right
    class yy_right_n : public terminal {
    public:
        yy_right_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_non_associative
    class yy_non_associative_n : public terminal {
    public:
        yy_non_associative_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_non_assoc
    class yy_non_assoc_n : public terminal {
    public:
        yy_non_assoc_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_conflict
    class yy_conflict_n : public terminal {
    public:
        yy_conflict_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_shift
    class yy_shift_n : public terminal {
    public:
        yy_shift_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_reduce
    class yy_reduce_n : public terminal {
    public:
        yy_reduce_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_can_clash
    class yy_can_clash_n : public terminal {
    public:
        yy_can_clash_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_identifier
    class yy_identifier_n : public terminal {
    public:
        yy_identifier_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_nonterminal
    class yy_nonterminal_n : public terminal {
    public:
        yy_nonterminal_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_regex
    class yy_regex_n : public terminal {
    public:
        yy_regex_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_string
    class yy_string_n : public terminal {
    public:
        yy_string_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_character
    class yy_character_n : public terminal {
    public:
        yy_character_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_newline
    class yy_newline_n : public terminal {
    public:
        yy_newline_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_whitespace
    class yy_whitespace_n : public terminal {
    public:
        yy_whitespace_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_comment
    class yy_comment_n : public terminal {
    public:
        yy_comment_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy_c_comment
    class yy_c_comment_n : public terminal {
    public:
        yy_c_comment_n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__opencurly_
    class yy__opencurly__n : public terminal {
    public:
        yy__opencurly__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__closecurly_
    class yy__closecurly__n : public terminal {
    public:
        yy__closecurly__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__colon_
    class yy__colon__n : public terminal {
    public:
        yy__colon__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__equals_
    class yy__equals__n : public terminal {
    public:
        yy__equals__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__pipe__equals_
    class yy__pipe__equals__n : public terminal {
    public:
        yy__pipe__equals__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__dot_
    class yy__dot__n : public terminal {
    public:
        yy__dot__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__pipe_
    class yy__pipe__n : public terminal {
    public:
        yy__pipe__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__star_
    class yy__star__n : public terminal {
    public:
        yy__star__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__plus_
    class yy__plus__n : public terminal {
    public:
        yy__plus__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__question_
    class yy__question__n : public terminal {
    public:
        yy__question__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__openparen_
    class yy__openparen__n : public terminal {
    public:
        yy__openparen__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__closeparen_
    class yy__closeparen__n : public terminal {
    public:
        yy__closeparen__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__opensquare__equals__greaterthan_
    class yy__opensquare__equals__greaterthan__n : public terminal {
    public:
        yy__opensquare__equals__greaterthan__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__closesquare_
    class yy__closesquare__n : public terminal {
    public:
        yy__closesquare__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__opensquare_
    class yy__opensquare__n : public terminal {
    public:
        yy__opensquare__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__comma_
    class yy__comma__n : public terminal {
    public:
        yy__comma__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    // yy__exclamation__equals_
    class yy__exclamation__equals__n : public terminal {
    public:
        yy__exclamation__equals__n(const dfa::lexeme_container& lex) : terminal(lex) { }
    };

    class yy_epsilon_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 72
        const util::syntax_ptr<yy_Parser_Language_n> yy_Parser_Language;

    public:
        yy_epsilon_n(const util::syntax_ptr<class yy_Parser_Language_n>& yy_Parser_Language_0);

    public:
        virtual ~yy_epsilon_n();
    };

    class yy_Parser_Language_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 0
        const util::syntax_ptr<yy_list_of_TopLevel_Block_n> yy_list_of_TopLevel_Block;

    public:
        yy_Parser_Language_n(const util::syntax_ptr<class yy_list_of_TopLevel_Block_n>& yy_list_of_TopLevel_Block_0);

    public:
        virtual ~yy_Parser_Language_n();
    };

    class yy_TopLevel_Block_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 1
        const util::syntax_ptr<yy_Language_Block_n> yy_Language_Block;

    public:
        yy_TopLevel_Block_n(const util::syntax_ptr<class yy_Language_Block_n>& yy_Language_Block_0);

    public:
        // Rule 2
        const util::syntax_ptr<yy_Import_Block_n> yy_Import_Block;

    public:
        yy_TopLevel_Block_n(const util::syntax_ptr<class yy_Import_Block_n>& yy_Import_Block_0);

    public:
        // Rule 3
        const util::syntax_ptr<yy_Parser_Block_n> yy_Parser_Block;

    public:
        yy_TopLevel_Block_n(const util::syntax_ptr<class yy_Parser_Block_n>& yy_Parser_Block_0);

    public:
        // Rule 4
        const util::syntax_ptr<yy_Test_Block_n> yy_Test_Block;

    public:
        yy_TopLevel_Block_n(const util::syntax_ptr<class yy_Test_Block_n>& yy_Test_Block_0);

    public:
        virtual ~yy_TopLevel_Block_n();
    };

    class yy_list_of_TopLevel_Block_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 70
        dfa::position m_Position;
    public:
        // Rule 71
        const util::syntax_ptr<yy_TopLevel_Block_n> yy_TopLevel_Block;

    public:
        yy_list_of_TopLevel_Block_n_content(const util::syntax_ptr<class yy_TopLevel_Block_n>& yy_TopLevel_Block_0);

    public:
        virtual ~yy_list_of_TopLevel_Block_n_content();
    };

    class yy_list_of_TopLevel_Block_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of_TopLevel_Block_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of_TopLevel_Block_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_Language_Block_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 5
        const util::syntax_ptr<yy_language_n> yy_language;
        const util::syntax_ptr<yy_identifier_n> yy_name;
        const util::syntax_ptr<yy_optional_Language_Inherits_n> yy_optional_Language_Inherits;
        const util::syntax_ptr<yy__opencurly__n> yy__opencurly_;
        const util::syntax_ptr<yy_list_of_Language_Definition_n> yy_list_of_Language_Definition;
        const util::syntax_ptr<yy__closecurly__n> yy__closecurly_;

    public:
        yy_Language_Block_n(const util::syntax_ptr<class yy_language_n>& yy_language_0, const util::syntax_ptr<class yy_identifier_n>& yy_identifier_1, const util::syntax_ptr<class yy_optional_Language_Inherits_n>& yy_optional_Language_Inherits_2, const util::syntax_ptr<class yy__opencurly__n>& yy__opencurly__3, const util::syntax_ptr<class yy_list_of_Language_Definition_n>& yy_list_of_Language_Definition_4, const util::syntax_ptr<class yy__closecurly__n>& yy__closecurly__5);

    public:
        virtual ~yy_Language_Block_n();
    };

    class yy_Import_Block_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 6
        const util::syntax_ptr<yy_import_n> yy_import;
        const util::syntax_ptr<yy_string_n> yy_filename;

    public:
        yy_Import_Block_n(const util::syntax_ptr<class yy_import_n>& yy_import_0, const util::syntax_ptr<class yy_string_n>& yy_string_1);

    public:
        virtual ~yy_Import_Block_n();
    };

    class yy_Parser_Block_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 62
        const util::syntax_ptr<yy_parser_n> yy_parser;
        const util::syntax_ptr<yy_identifier_n> yy_name;
        const util::syntax_ptr<yy__colon__n> yy__colon_;
        const util::syntax_ptr<yy_identifier_n> yy_language_name;
        const util::syntax_ptr<yy__opencurly__n> yy__opencurly_;
        const util::syntax_ptr<yy_list_of_Parser_StartSymbol_n> yy_start_symbols;
        const util::syntax_ptr<yy__closecurly__n> yy__closecurly_;

    public:
        yy_Parser_Block_n(const util::syntax_ptr<class yy_parser_n>& yy_parser_0, const util::syntax_ptr<class yy_identifier_n>& yy_identifier_1, const util::syntax_ptr<class yy__colon__n>& yy__colon__2, const util::syntax_ptr<class yy_identifier_n>& yy_identifier_3, const util::syntax_ptr<class yy__opencurly__n>& yy__opencurly__4, const util::syntax_ptr<class yy_list_of_Parser_StartSymbol_n>& yy_list_of_Parser_StartSymbol_5, const util::syntax_ptr<class yy__closecurly__n>& yy__closecurly__6);

    public:
        virtual ~yy_Parser_Block_n();
    };

    class yy_Test_Block_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 64
        const util::syntax_ptr<yy_test_n> yy_test;
        const util::syntax_ptr<yy_identifier_n> yy_language_name;
        const util::syntax_ptr<yy__opencurly__n> yy__opencurly_;
        const util::syntax_ptr<yy_list_of_Test_Definition_n> yy_tests;
        const util::syntax_ptr<yy__closecurly__n> yy__closecurly_;

    public:
        yy_Test_Block_n(const util::syntax_ptr<class yy_test_n>& yy_test_0, const util::syntax_ptr<class yy_identifier_n>& yy_identifier_1, const util::syntax_ptr<class yy__opencurly__n>& yy__opencurly__2, const util::syntax_ptr<class yy_list_of_Test_Definition_n>& yy_list_of_Test_Definition_3, const util::syntax_ptr<class yy__closecurly__n>& yy__closecurly__4);

    public:
        virtual ~yy_Test_Block_n();
    };

    class yy_Language_Inherits_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 7
        const util::syntax_ptr<yy__colon__n> yy__colon_;
        const util::syntax_ptr<yy_identifier_n> yy_inherit_from;

    public:
        yy_Language_Inherits_n(const util::syntax_ptr<class yy__colon__n>& yy__colon__0, const util::syntax_ptr<class yy_identifier_n>& yy_identifier_1);

    public:
        virtual ~yy_Language_Inherits_n();
    };

    class yy_optional_Language_Inherits_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 73
        dfa::position m_Position;
    public:
        yy_optional_Language_Inherits_n(const dfa::position& pos);

    public:
        // Rule 74
        const util::syntax_ptr<yy_Language_Inherits_n> yy_Language_Inherits;

    public:
        yy_optional_Language_Inherits_n(const util::syntax_ptr<class yy_Language_Inherits_n>& yy_Language_Inherits_0);

    public:
        virtual ~yy_optional_Language_Inherits_n();
    };

    class yy_Language_Definition_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 8
        const util::syntax_ptr<yy_Lexer_Symbols_Definition_n> yy_Lexer_Symbols_Definition;

    public:
        yy_Language_Definition_n(const util::syntax_ptr<class yy_Lexer_Symbols_Definition_n>& yy_Lexer_Symbols_Definition_0);

    public:
        // Rule 9
        const util::syntax_ptr<yy_Lexer_Definition_n> yy_Lexer_Definition;

    public:
        yy_Language_Definition_n(const util::syntax_ptr<class yy_Lexer_Definition_n>& yy_Lexer_Definition_0);

    public:
        // Rule 10
        const util::syntax_ptr<yy_Ignore_Definition_n> yy_Ignore_Definition;

    public:
        yy_Language_Definition_n(const util::syntax_ptr<class yy_Ignore_Definition_n>& yy_Ignore_Definition_0);

    public:
        // Rule 11
        const util::syntax_ptr<yy_Keywords_Definition_n> yy_Keywords_Definition;

    public:
        yy_Language_Definition_n(const util::syntax_ptr<class yy_Keywords_Definition_n>& yy_Keywords_Definition_0);

    public:
        // Rule 12
        const util::syntax_ptr<yy_Grammar_Definition_n> yy_Grammar_Definition;

    public:
        yy_Language_Definition_n(const util::syntax_ptr<class yy_Grammar_Definition_n>& yy_Grammar_Definition_0);

    public:
        // Rule 13
        const util::syntax_ptr<yy_Precedence_Definition_n> yy_Precedence_Definition;

    public:
        yy_Language_Definition_n(const util::syntax_ptr<class yy_Precedence_Definition_n>& yy_Precedence_Definition_0);

    public:
        virtual ~yy_Language_Definition_n();
    };

    class yy_list_of_Language_Definition_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 77
        dfa::position m_Position;
    public:
        // Rule 78
        const util::syntax_ptr<yy_Language_Definition_n> yy_Language_Definition;

    public:
        yy_list_of_Language_Definition_n_content(const util::syntax_ptr<class yy_Language_Definition_n>& yy_Language_Definition_0);

    public:
        virtual ~yy_list_of_Language_Definition_n_content();
    };

    class yy_list_of_Language_Definition_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of_Language_Definition_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of_Language_Definition_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_Lexer_Symbols_Definition_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 14
        const util::syntax_ptr<yy_list_of_Lexer_Symbols_Modifier_n> yy_modifiers;
        const util::syntax_ptr<yy_lexer_symbols_n> yy_lexer_symbols;
        const util::syntax_ptr<yy__opencurly__n> yy__opencurly_;
        const util::syntax_ptr<yy_list_of_Lexeme_Definition_n> yy_definitions;
        const util::syntax_ptr<yy__closecurly__n> yy__closecurly_;

    public:
        yy_Lexer_Symbols_Definition_n(const util::syntax_ptr<class yy_list_of_Lexer_Symbols_Modifier_n>& yy_list_of_Lexer_Symbols_Modifier_0, const util::syntax_ptr<class yy_lexer_symbols_n>& yy_lexer_symbols_1, const util::syntax_ptr<class yy__opencurly__n>& yy__opencurly__2, const util::syntax_ptr<class yy_list_of_Lexeme_Definition_n>& yy_list_of_Lexeme_Definition_3, const util::syntax_ptr<class yy__closecurly__n>& yy__closecurly__4);

    public:
        virtual ~yy_Lexer_Symbols_Definition_n();
    };

    class yy_Lexer_Definition_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 15
        const util::syntax_ptr<yy_list_of_Lexer_Modifier_n> yy_modifiers;
        const util::syntax_ptr<yy_lexer_n> yy_lexer;
        const util::syntax_ptr<yy__opencurly__n> yy__opencurly_;
        const util::syntax_ptr<yy_list_of_Lexeme_Definition_n> yy_definitions;
        const util::syntax_ptr<yy__closecurly__n> yy__closecurly_;

    public:
        yy_Lexer_Definition_n(const util::syntax_ptr<class yy_list_of_Lexer_Modifier_n>& yy_list_of_Lexer_Modifier_0, const util::syntax_ptr<class yy_lexer_n>& yy_lexer_1, const util::syntax_ptr<class yy__opencurly__n>& yy__opencurly__2, const util::syntax_ptr<class yy_list_of_Lexeme_Definition_n>& yy_list_of_Lexeme_Definition_3, const util::syntax_ptr<class yy__closecurly__n>& yy__closecurly__4);

    public:
        virtual ~yy_Lexer_Definition_n();
    };

    class yy_Ignore_Definition_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 16
        const util::syntax_ptr<yy_ignore_n> yy_ignore;
        const util::syntax_ptr<yy__opencurly__n> yy__opencurly_;
        const util::syntax_ptr<yy_list_of_Keyword_Definition_n> yy_definitions;
        const util::syntax_ptr<yy__closecurly__n> yy__closecurly_;

    public:
        yy_Ignore_Definition_n(const util::syntax_ptr<class yy_ignore_n>& yy_ignore_0, const util::syntax_ptr<class yy__opencurly__n>& yy__opencurly__1, const util::syntax_ptr<class yy_list_of_Keyword_Definition_n>& yy_list_of_Keyword_Definition_2, const util::syntax_ptr<class yy__closecurly__n>& yy__closecurly__3);

    public:
        virtual ~yy_Ignore_Definition_n();
    };

    class yy_Keywords_Definition_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 17
        const util::syntax_ptr<yy_list_of_Lexer_Modifier_n> yy_modifiers;
        const util::syntax_ptr<yy_keywords_n> yy_keywords;
        const util::syntax_ptr<yy__opencurly__n> yy__opencurly_;
        const util::syntax_ptr<yy_list_of_Keyword_Definition_n> yy_definitions;
        const util::syntax_ptr<yy__closecurly__n> yy__closecurly_;

    public:
        yy_Keywords_Definition_n(const util::syntax_ptr<class yy_list_of_Lexer_Modifier_n>& yy_list_of_Lexer_Modifier_0, const util::syntax_ptr<class yy_keywords_n>& yy_keywords_1, const util::syntax_ptr<class yy__opencurly__n>& yy__opencurly__2, const util::syntax_ptr<class yy_list_of_Keyword_Definition_n>& yy_list_of_Keyword_Definition_3, const util::syntax_ptr<class yy__closecurly__n>& yy__closecurly__4);

    public:
        virtual ~yy_Keywords_Definition_n();
    };

    class yy_Grammar_Definition_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 28
        const util::syntax_ptr<yy_grammar_n> yy_grammar;
        const util::syntax_ptr<yy__opencurly__n> yy__opencurly_;
        const util::syntax_ptr<yy_list_of_Nonterminal_Definition_n> yy_nonterminals;
        const util::syntax_ptr<yy__closecurly__n> yy__closecurly_;

    public:
        yy_Grammar_Definition_n(const util::syntax_ptr<class yy_grammar_n>& yy_grammar_0, const util::syntax_ptr<class yy__opencurly__n>& yy__opencurly__1, const util::syntax_ptr<class yy_list_of_Nonterminal_Definition_n>& yy_list_of_Nonterminal_Definition_2, const util::syntax_ptr<class yy__closecurly__n>& yy__closecurly__3);

    public:
        virtual ~yy_Grammar_Definition_n();
    };

    class yy_Precedence_Definition_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 55
        const util::syntax_ptr<yy_precedence_n> yy_precedence;
        const util::syntax_ptr<yy__opencurly__n> yy__opencurly_;
        const util::syntax_ptr<yy_list_of_Precedence_Item_n> yy_items;
        const util::syntax_ptr<yy__closecurly__n> yy__closecurly_;

    public:
        yy_Precedence_Definition_n(const util::syntax_ptr<class yy_precedence_n>& yy_precedence_0, const util::syntax_ptr<class yy__opencurly__n>& yy__opencurly__1, const util::syntax_ptr<class yy_list_of_Precedence_Item_n>& yy_list_of_Precedence_Item_2, const util::syntax_ptr<class yy__closecurly__n>& yy__closecurly__3);

    public:
        virtual ~yy_Precedence_Definition_n();
    };

    class yy_Lexer_Symbols_Modifier_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 21
        const util::syntax_ptr<yy_case_n> yy_case;
        const util::syntax_ptr<yy_sensitive_n> yy_sensitive;

    public:
        yy_Lexer_Symbols_Modifier_n(const util::syntax_ptr<class yy_case_n>& yy_case_0, const util::syntax_ptr<class yy_sensitive_n>& yy_sensitive_1);

    public:
        // Rule 22
        // yy_case declared in another rule
        const util::syntax_ptr<yy_insensitive_n> yy_insensitive;

    public:
        yy_Lexer_Symbols_Modifier_n(const util::syntax_ptr<class yy_case_n>& yy_case_0, const util::syntax_ptr<class yy_insensitive_n>& yy_insensitive_1);

    public:
        virtual ~yy_Lexer_Symbols_Modifier_n();
    };

    class yy_list_of_Lexer_Symbols_Modifier_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 79
        dfa::position m_Position;
    public:
        // Rule 80
        const util::syntax_ptr<yy_Lexer_Symbols_Modifier_n> yy_Lexer_Symbols_Modifier;

    public:
        yy_list_of_Lexer_Symbols_Modifier_n_content(const util::syntax_ptr<class yy_Lexer_Symbols_Modifier_n>& yy_Lexer_Symbols_Modifier_0);

    public:
        virtual ~yy_list_of_Lexer_Symbols_Modifier_n_content();
    };

    class yy_list_of_Lexer_Symbols_Modifier_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of_Lexer_Symbols_Modifier_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of_Lexer_Symbols_Modifier_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_Lexeme_Definition_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 25
        const util::syntax_ptr<yy_identifier_n> yy_name;
        const util::syntax_ptr<yy_one_of__equals__or__pipe__equals__n> yy_one_of__equals__or__pipe__equals_;
        const util::syntax_ptr<yy_one_of_regex_or_one_of_string_or_character_n> yy_one_of_regex_or_one_of_string_or_character;

    public:
        yy_Lexeme_Definition_n(const util::syntax_ptr<class yy_identifier_n>& yy_identifier_0, const util::syntax_ptr<class yy_one_of__equals__or__pipe__equals__n>& yy_one_of__equals__or__pipe__equals__1, const util::syntax_ptr<class yy_one_of_regex_or_one_of_string_or_character_n>& yy_one_of_regex_or_one_of_string_or_character_2);

    public:
        // Rule 26
        const util::syntax_ptr<yy_replace_n> yy_replace;
        // yy_name declared in another rule
        const util::syntax_ptr<yy__equals__n> yy__equals_;
        // yy_one_of_regex_or_one_of_string_or_character declared in another rule

    public:
        yy_Lexeme_Definition_n(const util::syntax_ptr<class yy_replace_n>& yy_replace_0, const util::syntax_ptr<class yy_identifier_n>& yy_identifier_1, const util::syntax_ptr<class yy__equals__n>& yy__equals__2, const util::syntax_ptr<class yy_one_of_regex_or_one_of_string_or_character_n>& yy_one_of_regex_or_one_of_string_or_character_3);

    public:
        // Rule 27
        // yy_name declared in another rule
        // yy__equals_ declared in another rule
        const util::syntax_ptr<yy_identifier_n> yy_source_language;
        const util::syntax_ptr<yy__dot__n> yy__dot_;
        const util::syntax_ptr<yy_identifier_n> yy_source_name;

    public:
        yy_Lexeme_Definition_n(const util::syntax_ptr<class yy_identifier_n>& yy_identifier_0, const util::syntax_ptr<class yy__equals__n>& yy__equals__1, const util::syntax_ptr<class yy_identifier_n>& yy_identifier_2, const util::syntax_ptr<class yy__dot__n>& yy__dot__3, const util::syntax_ptr<class yy_identifier_n>& yy_identifier_4);

    public:
        virtual ~yy_Lexeme_Definition_n();
    };

    class yy_list_of_Lexeme_Definition_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 99
        dfa::position m_Position;
    public:
        // Rule 100
        const util::syntax_ptr<yy_Lexeme_Definition_n> yy_Lexeme_Definition;

    public:
        yy_list_of_Lexeme_Definition_n_content(const util::syntax_ptr<class yy_Lexeme_Definition_n>& yy_Lexeme_Definition_0);

    public:
        virtual ~yy_list_of_Lexeme_Definition_n_content();
    };

    class yy_list_of_Lexeme_Definition_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of_Lexeme_Definition_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of_Lexeme_Definition_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_Lexer_Modifier_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 18
        const util::syntax_ptr<yy_weak_n> yy_weak;

    public:
        yy_Lexer_Modifier_n(const util::syntax_ptr<class yy_weak_n>& yy_weak_0);

    public:
        // Rule 19
        const util::syntax_ptr<yy_case_n> yy_case;
        const util::syntax_ptr<yy_sensitive_n> yy_sensitive;

    public:
        yy_Lexer_Modifier_n(const util::syntax_ptr<class yy_case_n>& yy_case_0, const util::syntax_ptr<class yy_sensitive_n>& yy_sensitive_1);

    public:
        // Rule 20
        // yy_case declared in another rule
        const util::syntax_ptr<yy_insensitive_n> yy_insensitive;

    public:
        yy_Lexer_Modifier_n(const util::syntax_ptr<class yy_case_n>& yy_case_0, const util::syntax_ptr<class yy_insensitive_n>& yy_insensitive_1);

    public:
        virtual ~yy_Lexer_Modifier_n();
    };

    class yy_list_of_Lexer_Modifier_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 85
        dfa::position m_Position;
    public:
        // Rule 86
        const util::syntax_ptr<yy_Lexer_Modifier_n> yy_Lexer_Modifier;

    public:
        yy_list_of_Lexer_Modifier_n_content(const util::syntax_ptr<class yy_Lexer_Modifier_n>& yy_Lexer_Modifier_0);

    public:
        virtual ~yy_list_of_Lexer_Modifier_n_content();
    };

    class yy_list_of_Lexer_Modifier_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of_Lexer_Modifier_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of_Lexer_Modifier_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_Keyword_Definition_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 23
        const util::syntax_ptr<yy_identifier_n> yy_literal;

    public:
        yy_Keyword_Definition_n(const util::syntax_ptr<class yy_identifier_n>& yy_identifier_0);

    public:
        // Rule 24
        const util::syntax_ptr<yy_Lexeme_Definition_n> yy_lexeme;

    public:
        yy_Keyword_Definition_n(const util::syntax_ptr<class yy_Lexeme_Definition_n>& yy_Lexeme_Definition_0);

    public:
        virtual ~yy_Keyword_Definition_n();
    };

    class yy_list_of_Keyword_Definition_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 90
        dfa::position m_Position;
    public:
        // Rule 91
        const util::syntax_ptr<yy_Keyword_Definition_n> yy_Keyword_Definition;

    public:
        yy_list_of_Keyword_Definition_n_content(const util::syntax_ptr<class yy_Keyword_Definition_n>& yy_Keyword_Definition_0);

    public:
        virtual ~yy_list_of_Keyword_Definition_n_content();
    };

    class yy_list_of_Keyword_Definition_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of_Keyword_Definition_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of_Keyword_Definition_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_one_of__equals__or__pipe__equals__n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 101
        const util::syntax_ptr<yy__equals__n> yy__equals_;

    public:
        yy_one_of__equals__or__pipe__equals__n(const util::syntax_ptr<class yy__equals__n>& yy__equals__0);

    public:
        // Rule 102
        const util::syntax_ptr<yy__pipe__equals__n> yy__pipe__equals_;

    public:
        yy_one_of__equals__or__pipe__equals__n(const util::syntax_ptr<class yy__pipe__equals__n>& yy__pipe__equals__0);

    public:
        virtual ~yy_one_of__equals__or__pipe__equals__n();
    };

    class yy_one_of_string_or_character_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        virtual ~yy_one_of_string_or_character_n();
    };

    class yy_one_of_regex_or_one_of_string_or_character_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 103
        const util::syntax_ptr<yy_regex_n> yy_regex;

    public:
        yy_one_of_regex_or_one_of_string_or_character_n(const util::syntax_ptr<class yy_regex_n>& yy_regex_0);

    public:
        // Rule 104
        const util::syntax_ptr<yy_string_n> yy_string;

    public:
        yy_one_of_regex_or_one_of_string_or_character_n(const util::syntax_ptr<class yy_string_n>& yy_string_0);

    public:
        // Rule 105
        const util::syntax_ptr<yy_character_n> yy_character;

    public:
        yy_one_of_regex_or_one_of_string_or_character_n(const util::syntax_ptr<class yy_character_n>& yy_character_0);

    public:
        virtual ~yy_one_of_regex_or_one_of_string_or_character_n();
    };

    class yy_Nonterminal_Definition_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 29
        const util::syntax_ptr<yy_nonterminal_n> yy_nonterminal;
        const util::syntax_ptr<yy_one_of__equals__or__pipe__equals__n> yy_one_of__equals__or__pipe__equals_;
        const util::syntax_ptr<yy_Production_n> yy_Production;
        const util::syntax_ptr<yy_list_of__pipe__Production_n> yy_list_of__pipe__Production;

    public:
        yy_Nonterminal_Definition_n(const util::syntax_ptr<class yy_nonterminal_n>& yy_nonterminal_0, const util::syntax_ptr<class yy_one_of__equals__or__pipe__equals__n>& yy_one_of__equals__or__pipe__equals__1, const util::syntax_ptr<class yy_Production_n>& yy_Production_2, const util::syntax_ptr<class yy_list_of__pipe__Production_n>& yy_list_of__pipe__Production_3);

    public:
        // Rule 30
        const util::syntax_ptr<yy_replace_n> yy_replace;
        // yy_nonterminal declared in another rule
        const util::syntax_ptr<yy__equals__n> yy__equals_;
        // yy_Production declared in another rule
        // yy_list_of__pipe__Production declared in another rule

    public:
        yy_Nonterminal_Definition_n(const util::syntax_ptr<class yy_replace_n>& yy_replace_0, const util::syntax_ptr<class yy_nonterminal_n>& yy_nonterminal_1, const util::syntax_ptr<class yy__equals__n>& yy__equals__2, const util::syntax_ptr<class yy_Production_n>& yy_Production_3, const util::syntax_ptr<class yy_list_of__pipe__Production_n>& yy_list_of__pipe__Production_4);

    public:
        virtual ~yy_Nonterminal_Definition_n();
    };

    class yy_list_of_Nonterminal_Definition_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 92
        dfa::position m_Position;
    public:
        // Rule 93
        const util::syntax_ptr<yy_Nonterminal_Definition_n> yy_Nonterminal_Definition;

    public:
        yy_list_of_Nonterminal_Definition_n_content(const util::syntax_ptr<class yy_Nonterminal_Definition_n>& yy_Nonterminal_Definition_0);

    public:
        virtual ~yy_list_of_Nonterminal_Definition_n_content();
    };

    class yy_list_of_Nonterminal_Definition_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of_Nonterminal_Definition_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of_Nonterminal_Definition_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_Production_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 31
        const util::syntax_ptr<yy_list_of_Simple_Ebnf_Item_n> yy_items;

    public:
        yy_Production_n(const util::syntax_ptr<class yy_list_of_Simple_Ebnf_Item_n>& yy_list_of_Simple_Ebnf_Item_0);

    public:
        virtual ~yy_Production_n();
    };

    class yy_list_of__pipe__Production_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 110
        dfa::position m_Position;
    public:
        // Rule 111
        const util::syntax_ptr<yy__pipe__n> yy__pipe_;
        const util::syntax_ptr<yy_Production_n> yy_Production;

    public:
        yy_list_of__pipe__Production_n_content(const util::syntax_ptr<class yy__pipe__n>& yy__pipe__0, const util::syntax_ptr<class yy_Production_n>& yy_Production_1);

    public:
        virtual ~yy_list_of__pipe__Production_n_content();
    };

    class yy_list_of__pipe__Production_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of__pipe__Production_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of__pipe__Production_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_Simple_Ebnf_Item_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 34
        const util::syntax_ptr<yy_Nonterminal_n> yy_Nonterminal;
        const util::syntax_ptr<yy_optional_Semantic_Specification_n> yy_optional_Semantic_Specification;

    public:
        yy_Simple_Ebnf_Item_n(const util::syntax_ptr<class yy_Nonterminal_n>& yy_Nonterminal_0, const util::syntax_ptr<class yy_optional_Semantic_Specification_n>& yy_optional_Semantic_Specification_1);

    public:
        // Rule 35
        const util::syntax_ptr<yy_Terminal_n> yy_Terminal;
        // yy_optional_Semantic_Specification declared in another rule

    public:
        yy_Simple_Ebnf_Item_n(const util::syntax_ptr<class yy_Terminal_n>& yy_Terminal_0, const util::syntax_ptr<class yy_optional_Semantic_Specification_n>& yy_optional_Semantic_Specification_1);

    public:
        // Rule 36
        const util::syntax_ptr<yy_Guard_n> yy_Guard;
        // yy_optional_Semantic_Specification declared in another rule

    public:
        yy_Simple_Ebnf_Item_n(const util::syntax_ptr<class yy_Guard_n>& yy_Guard_0, const util::syntax_ptr<class yy_optional_Semantic_Specification_n>& yy_optional_Semantic_Specification_1);

    public:
        // Rule 37
        const util::syntax_ptr<yy_Simple_Ebnf_Item_n> yy_Simple_Ebnf_Item;
        const util::syntax_ptr<yy__star__n> yy__star_;
        // yy_optional_Semantic_Specification declared in another rule

    public:
        yy_Simple_Ebnf_Item_n(const util::syntax_ptr<class yy_Simple_Ebnf_Item_n>& yy_Simple_Ebnf_Item_0, const util::syntax_ptr<class yy__star__n>& yy__star__1, const util::syntax_ptr<class yy_optional_Semantic_Specification_n>& yy_optional_Semantic_Specification_2);

    public:
        // Rule 38
        // yy_Simple_Ebnf_Item declared in another rule
        const util::syntax_ptr<yy__plus__n> yy__plus_;
        // yy_optional_Semantic_Specification declared in another rule

    public:
        yy_Simple_Ebnf_Item_n(const util::syntax_ptr<class yy_Simple_Ebnf_Item_n>& yy_Simple_Ebnf_Item_0, const util::syntax_ptr<class yy__plus__n>& yy__plus__1, const util::syntax_ptr<class yy_optional_Semantic_Specification_n>& yy_optional_Semantic_Specification_2);

    public:
        // Rule 39
        // yy_Simple_Ebnf_Item declared in another rule
        const util::syntax_ptr<yy__question__n> yy__question_;
        // yy_optional_Semantic_Specification declared in another rule

    public:
        yy_Simple_Ebnf_Item_n(const util::syntax_ptr<class yy_Simple_Ebnf_Item_n>& yy_Simple_Ebnf_Item_0, const util::syntax_ptr<class yy__question__n>& yy__question__1, const util::syntax_ptr<class yy_optional_Semantic_Specification_n>& yy_optional_Semantic_Specification_2);

    public:
        // Rule 40
        const util::syntax_ptr<yy__openparen__n> yy__openparen_;
        const util::syntax_ptr<yy_Ebnf_Item_n> yy_Ebnf_Item;
        const util::syntax_ptr<yy__closeparen__n> yy__closeparen_;
        // yy_optional_Semantic_Specification declared in another rule

    public:
        yy_Simple_Ebnf_Item_n(const util::syntax_ptr<class yy__openparen__n>& yy__openparen__0, const util::syntax_ptr<class yy_Ebnf_Item_n>& yy_Ebnf_Item_1, const util::syntax_ptr<class yy__closeparen__n>& yy__closeparen__2, const util::syntax_ptr<class yy_optional_Semantic_Specification_n>& yy_optional_Semantic_Specification_3);

    public:
        virtual ~yy_Simple_Ebnf_Item_n();
    };

    class yy_list_of_Simple_Ebnf_Item_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 106
        dfa::position m_Position;
    public:
        // Rule 107
        const util::syntax_ptr<yy_Simple_Ebnf_Item_n> yy_Simple_Ebnf_Item;

    public:
        yy_list_of_Simple_Ebnf_Item_n_content(const util::syntax_ptr<class yy_Simple_Ebnf_Item_n>& yy_Simple_Ebnf_Item_0);

    public:
        virtual ~yy_list_of_Simple_Ebnf_Item_n_content();
    };

    class yy_list_of_Simple_Ebnf_Item_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of_Simple_Ebnf_Item_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of_Simple_Ebnf_Item_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_Ebnf_Item_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 32
        const util::syntax_ptr<yy_list_of_Simple_Ebnf_Item_n> yy_items;

    public:
        yy_Ebnf_Item_n(const util::syntax_ptr<class yy_list_of_Simple_Ebnf_Item_n>& yy_list_of_Simple_Ebnf_Item_0);

    public:
        // Rule 33
        // yy_items declared in another rule
        const util::syntax_ptr<yy__pipe__n> yy__pipe_;
        const util::syntax_ptr<yy_Ebnf_Item_n> yy_or_item;

    public:
        yy_Ebnf_Item_n(const util::syntax_ptr<class yy_list_of_Simple_Ebnf_Item_n>& yy_list_of_Simple_Ebnf_Item_0, const util::syntax_ptr<class yy__pipe__n>& yy__pipe__1, const util::syntax_ptr<class yy_Ebnf_Item_n>& yy_Ebnf_Item_2);

    public:
        virtual ~yy_Ebnf_Item_n();
    };

    class yy_Nonterminal_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 43
        const util::syntax_ptr<yy_nonterminal_n> yy_nonterminal;

    public:
        yy_Nonterminal_n(const util::syntax_ptr<class yy_nonterminal_n>& yy_nonterminal_0);

    public:
        // Rule 44
        const util::syntax_ptr<yy_identifier_n> yy_source_language;
        const util::syntax_ptr<yy__dot__n> yy__dot_;
        // yy_nonterminal declared in another rule

    public:
        yy_Nonterminal_n(const util::syntax_ptr<class yy_identifier_n>& yy_identifier_0, const util::syntax_ptr<class yy__dot__n>& yy__dot__1, const util::syntax_ptr<class yy_nonterminal_n>& yy_nonterminal_2);

    public:
        virtual ~yy_Nonterminal_n();
    };

    class yy_Semantic_Specification_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 50
        const util::syntax_ptr<yy__opensquare__n> yy__opensquare_;
        const util::syntax_ptr<yy_Semantic_Item_n> yy_first_item;
        const util::syntax_ptr<yy_list_of__comma__Semantic_Item_n> yy_more_items;
        const util::syntax_ptr<yy__closesquare__n> yy__closesquare_;

    public:
        yy_Semantic_Specification_n(const util::syntax_ptr<class yy__opensquare__n>& yy__opensquare__0, const util::syntax_ptr<class yy_Semantic_Item_n>& yy_Semantic_Item_1, const util::syntax_ptr<class yy_list_of__comma__Semantic_Item_n>& yy_list_of__comma__Semantic_Item_2, const util::syntax_ptr<class yy__closesquare__n>& yy__closesquare__3);

    public:
        virtual ~yy_Semantic_Specification_n();
    };

    class yy_optional_Semantic_Specification_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 108
        dfa::position m_Position;
    public:
        yy_optional_Semantic_Specification_n(const dfa::position& pos);

    public:
        // Rule 109
        const util::syntax_ptr<yy_Semantic_Specification_n> yy_Semantic_Specification;

    public:
        yy_optional_Semantic_Specification_n(const util::syntax_ptr<class yy_Semantic_Specification_n>& yy_Semantic_Specification_0);

    public:
        virtual ~yy_optional_Semantic_Specification_n();
    };

    class yy_Terminal_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 45
        const util::syntax_ptr<yy_Basic_Terminal_n> yy_Basic_Terminal;

    public:
        yy_Terminal_n(const util::syntax_ptr<class yy_Basic_Terminal_n>& yy_Basic_Terminal_0);

    public:
        // Rule 46
        const util::syntax_ptr<yy_identifier_n> yy_source_language;
        const util::syntax_ptr<yy__dot__n> yy__dot_;
        // yy_Basic_Terminal declared in another rule

    public:
        yy_Terminal_n(const util::syntax_ptr<class yy_identifier_n>& yy_identifier_0, const util::syntax_ptr<class yy__dot__n>& yy__dot__1, const util::syntax_ptr<class yy_Basic_Terminal_n>& yy_Basic_Terminal_2);

    public:
        virtual ~yy_Terminal_n();
    };

    class yy_Guard_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 41
        const util::syntax_ptr<yy__opensquare__equals__greaterthan__n> yy__opensquare__equals__greaterthan_;
        const util::syntax_ptr<yy_Ebnf_Item_n> yy_Ebnf_Item;
        const util::syntax_ptr<yy__closesquare__n> yy__closesquare_;

    public:
        yy_Guard_n(const util::syntax_ptr<class yy__opensquare__equals__greaterthan__n>& yy__opensquare__equals__greaterthan__0, const util::syntax_ptr<class yy_Ebnf_Item_n>& yy_Ebnf_Item_1, const util::syntax_ptr<class yy__closesquare__n>& yy__closesquare__2);

    public:
        // Rule 42
        // yy__opensquare__equals__greaterthan_ declared in another rule
        const util::syntax_ptr<yy__opensquare__n> yy__opensquare_;
        const util::syntax_ptr<yy_can_clash_n> yy_can_clash;
        // yy__closesquare_ declared in another rule
        // yy_Ebnf_Item declared in another rule
        const util::syntax_ptr<yy__closesquare__n> yy__closesquare__2;

    public:
        yy_Guard_n(const util::syntax_ptr<class yy__opensquare__equals__greaterthan__n>& yy__opensquare__equals__greaterthan__0, const util::syntax_ptr<class yy__opensquare__n>& yy__opensquare__1, const util::syntax_ptr<class yy_can_clash_n>& yy_can_clash_2, const util::syntax_ptr<class yy__closesquare__n>& yy__closesquare__3, const util::syntax_ptr<class yy_Ebnf_Item_n>& yy_Ebnf_Item_4, const util::syntax_ptr<class yy__closesquare__n>& yy__closesquare__5);

    public:
        virtual ~yy_Guard_n();
    };

    class yy_Basic_Terminal_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 47
        const util::syntax_ptr<yy_identifier_n> yy_lexeme_name;

    public:
        yy_Basic_Terminal_n(const util::syntax_ptr<class yy_identifier_n>& yy_identifier_0);

    public:
        // Rule 48
        const util::syntax_ptr<yy_string_n> yy_string;

    public:
        yy_Basic_Terminal_n(const util::syntax_ptr<class yy_string_n>& yy_string_0);

    public:
        // Rule 49
        const util::syntax_ptr<yy_character_n> yy_character;

    public:
        yy_Basic_Terminal_n(const util::syntax_ptr<class yy_character_n>& yy_character_0);

    public:
        virtual ~yy_Basic_Terminal_n();
    };

    class yy_Semantic_Item_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 51
        const util::syntax_ptr<yy_identifier_n> yy_name;

    public:
        yy_Semantic_Item_n(const util::syntax_ptr<class yy_identifier_n>& yy_identifier_0);

    public:
        // Rule 52
        const util::syntax_ptr<yy_conflict_n> yy_conflict;
        const util::syntax_ptr<yy__equals__n> yy__equals_;
        const util::syntax_ptr<yy_shift_n> yy_shift;

    public:
        yy_Semantic_Item_n(const util::syntax_ptr<class yy_conflict_n>& yy_conflict_0, const util::syntax_ptr<class yy__equals__n>& yy__equals__1, const util::syntax_ptr<class yy_shift_n>& yy_shift_2);

    public:
        // Rule 53
        // yy_conflict declared in another rule
        // yy__equals_ declared in another rule
        const util::syntax_ptr<yy_reduce_n> yy_reduce;

    public:
        yy_Semantic_Item_n(const util::syntax_ptr<class yy_conflict_n>& yy_conflict_0, const util::syntax_ptr<class yy__equals__n>& yy__equals__1, const util::syntax_ptr<class yy_reduce_n>& yy_reduce_2);

    public:
        // Rule 54
        // yy_conflict declared in another rule
        // yy__equals_ declared in another rule
        const util::syntax_ptr<yy_weak_n> yy_weak;
        // yy_reduce declared in another rule

    public:
        yy_Semantic_Item_n(const util::syntax_ptr<class yy_conflict_n>& yy_conflict_0, const util::syntax_ptr<class yy__equals__n>& yy__equals__1, const util::syntax_ptr<class yy_weak_n>& yy_weak_2, const util::syntax_ptr<class yy_reduce_n>& yy_reduce_3);

    public:
        virtual ~yy_Semantic_Item_n();
    };

    class yy_list_of__comma__Semantic_Item_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 112
        dfa::position m_Position;
    public:
        // Rule 113
        const util::syntax_ptr<yy__comma__n> yy__comma_;
        const util::syntax_ptr<yy_Semantic_Item_n> yy_Semantic_Item;

    public:
        yy_list_of__comma__Semantic_Item_n_content(const util::syntax_ptr<class yy__comma__n>& yy__comma__0, const util::syntax_ptr<class yy_Semantic_Item_n>& yy_Semantic_Item_1);

    public:
        virtual ~yy_list_of__comma__Semantic_Item_n_content();
    };

    class yy_list_of__comma__Semantic_Item_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of__comma__Semantic_Item_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of__comma__Semantic_Item_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_Precedence_Item_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 56
        const util::syntax_ptr<yy_left_n> yy_left;
        const util::syntax_ptr<yy_Equal_Precedence_Items_n> yy_Equal_Precedence_Items;

    public:
        yy_Precedence_Item_n(const util::syntax_ptr<class yy_left_n>& yy_left_0, const util::syntax_ptr<class yy_Equal_Precedence_Items_n>& yy_Equal_Precedence_Items_1);

    public:
        // Rule 57
        const util::syntax_ptr<yy_right_n> yy_right;
        // yy_Equal_Precedence_Items declared in another rule

    public:
        yy_Precedence_Item_n(const util::syntax_ptr<class yy_right_n>& yy_right_0, const util::syntax_ptr<class yy_Equal_Precedence_Items_n>& yy_Equal_Precedence_Items_1);

    public:
        // Rule 58
        const util::syntax_ptr<yy_non_associative_n> yy_non_associative;
        // yy_Equal_Precedence_Items declared in another rule

    public:
        yy_Precedence_Item_n(const util::syntax_ptr<class yy_non_associative_n>& yy_non_associative_0, const util::syntax_ptr<class yy_Equal_Precedence_Items_n>& yy_Equal_Precedence_Items_1);

    public:
        // Rule 59
        const util::syntax_ptr<yy_non_assoc_n> yy_non_assoc;
        // yy_Equal_Precedence_Items declared in another rule

    public:
        yy_Precedence_Item_n(const util::syntax_ptr<class yy_non_assoc_n>& yy_non_assoc_0, const util::syntax_ptr<class yy_Equal_Precedence_Items_n>& yy_Equal_Precedence_Items_1);

    public:
        virtual ~yy_Precedence_Item_n();
    };

    class yy_list_of_Precedence_Item_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 94
        dfa::position m_Position;
    public:
        // Rule 95
        const util::syntax_ptr<yy_Precedence_Item_n> yy_Precedence_Item;

    public:
        yy_list_of_Precedence_Item_n_content(const util::syntax_ptr<class yy_Precedence_Item_n>& yy_Precedence_Item_0);

    public:
        virtual ~yy_list_of_Precedence_Item_n_content();
    };

    class yy_list_of_Precedence_Item_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of_Precedence_Item_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of_Precedence_Item_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_Equal_Precedence_Items_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 60
        const util::syntax_ptr<yy_Simple_Ebnf_Item_n> yy_Simple_Ebnf_Item;

    public:
        yy_Equal_Precedence_Items_n(const util::syntax_ptr<class yy_Simple_Ebnf_Item_n>& yy_Simple_Ebnf_Item_0);

    public:
        // Rule 61
        const util::syntax_ptr<yy__opencurly__n> yy__opencurly_;
        const util::syntax_ptr<yy_list_of_Simple_Ebnf_Item_n> yy_terminals;
        const util::syntax_ptr<yy__closecurly__n> yy__closecurly_;

    public:
        yy_Equal_Precedence_Items_n(const util::syntax_ptr<class yy__opencurly__n>& yy__opencurly__0, const util::syntax_ptr<class yy_list_of_Simple_Ebnf_Item_n>& yy_list_of_Simple_Ebnf_Item_1, const util::syntax_ptr<class yy__closecurly__n>& yy__closecurly__2);

    public:
        virtual ~yy_Equal_Precedence_Items_n();
    };

    class yy_Parser_StartSymbol_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 63
        const util::syntax_ptr<yy_Nonterminal_n> yy_Nonterminal;

    public:
        yy_Parser_StartSymbol_n(const util::syntax_ptr<class yy_Nonterminal_n>& yy_Nonterminal_0);

    public:
        virtual ~yy_Parser_StartSymbol_n();
    };

    class yy_list_of_Parser_StartSymbol_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 83
        const util::syntax_ptr<yy_Parser_StartSymbol_n> yy_Parser_StartSymbol;

    public:
        yy_list_of_Parser_StartSymbol_n_content(const util::syntax_ptr<class yy_Parser_StartSymbol_n>& yy_Parser_StartSymbol_0);

    public:
        // Rule 84
        // yy_Parser_StartSymbol declared in another rule

    public:
        virtual ~yy_list_of_Parser_StartSymbol_n_content();
    };

    class yy_list_of_Parser_StartSymbol_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of_Parser_StartSymbol_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of_Parser_StartSymbol_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_Test_Definition_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 65
        const util::syntax_ptr<yy_Nonterminal_n> yy_Nonterminal;
        const util::syntax_ptr<yy__equals__n> yy__equals_;
        const util::syntax_ptr<yy_list_of_Test_Specification_n> yy_list_of_Test_Specification;

    public:
        yy_Test_Definition_n(const util::syntax_ptr<class yy_Nonterminal_n>& yy_Nonterminal_0, const util::syntax_ptr<class yy__equals__n>& yy__equals__1, const util::syntax_ptr<class yy_list_of_Test_Specification_n>& yy_list_of_Test_Specification_2);

    public:
        // Rule 66
        // yy_Nonterminal declared in another rule
        const util::syntax_ptr<yy__exclamation__equals__n> yy__exclamation__equals_;
        // yy_list_of_Test_Specification declared in another rule

    public:
        yy_Test_Definition_n(const util::syntax_ptr<class yy_Nonterminal_n>& yy_Nonterminal_0, const util::syntax_ptr<class yy__exclamation__equals__n>& yy__exclamation__equals__1, const util::syntax_ptr<class yy_list_of_Test_Specification_n>& yy_list_of_Test_Specification_2);

    public:
        // Rule 67
        // yy_Nonterminal declared in another rule
        const util::syntax_ptr<yy_from_n> yy_from;
        // yy_list_of_Test_Specification declared in another rule

    public:
        yy_Test_Definition_n(const util::syntax_ptr<class yy_Nonterminal_n>& yy_Nonterminal_0, const util::syntax_ptr<class yy_from_n>& yy_from_1, const util::syntax_ptr<class yy_list_of_Test_Specification_n>& yy_list_of_Test_Specification_2);

    public:
        virtual ~yy_Test_Definition_n();
    };

    class yy_list_of_Test_Definition_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 75
        dfa::position m_Position;
    public:
        // Rule 76
        const util::syntax_ptr<yy_Test_Definition_n> yy_Test_Definition;

    public:
        yy_list_of_Test_Definition_n_content(const util::syntax_ptr<class yy_Test_Definition_n>& yy_Test_Definition_0);

    public:
        virtual ~yy_list_of_Test_Definition_n_content();
    };

    class yy_list_of_Test_Definition_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of_Test_Definition_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of_Test_Definition_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_Test_Specification_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 68
        const util::syntax_ptr<yy_string_n> yy_string;

    public:
        yy_Test_Specification_n(const util::syntax_ptr<class yy_string_n>& yy_string_0);

    public:
        // Rule 69
        const util::syntax_ptr<yy_identifier_n> yy_identifier;
        const util::syntax_ptr<yy__openparen__n> yy__openparen_;
        // yy_string declared in another rule
        const util::syntax_ptr<yy__closeparen__n> yy__closeparen_;

    public:
        yy_Test_Specification_n(const util::syntax_ptr<class yy_identifier_n>& yy_identifier_0, const util::syntax_ptr<class yy__openparen__n>& yy__openparen__1, const util::syntax_ptr<class yy_string_n>& yy_string_2, const util::syntax_ptr<class yy__closeparen__n>& yy__closeparen__3);

    public:
        virtual ~yy_Test_Specification_n();
    };

    class yy_list_of_Test_Specification_n_content : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        // Rule 87
        const util::syntax_ptr<yy_Test_Specification_n> yy_Test_Specification;

    public:
        yy_list_of_Test_Specification_n_content(const util::syntax_ptr<class yy_Test_Specification_n>& yy_Test_Specification_0);

    public:
        // Rule 88
        // yy_Test_Specification declared in another rule

    public:
        virtual ~yy_list_of_Test_Specification_n_content();
    };

    class yy_list_of_Test_Specification_n : public syntax_node {
    public:
        typedef util::syntax_ptr<class yy_list_of_Test_Specification_n_content> node_type;
        typedef std::vector<node_type> data_type;
        typedef data_type::const_iterator iterator;

    private:
        data_type m_Data;
        dfa::position m_Position;

    public:
        inline operator const data_type&() const { return m_Data; }
        inline const yy_list_of_Test_Specification_n_content* operator[](size_t index) const { return m_Data[index].item(); }
        inline const size_t size() const { return m_Data.size(); }
        inline iterator begin() const { return m_Data.begin(); }
        inline iterator end() const { return m_Data.end(); }

        inline void add_child(const node_type& newChild) { m_Data.push_back(newChild); }
        inline void set_position(const dfa::position& newPos) { m_Position = newPos; }

        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;
    };

    class yy_end_of_input_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        virtual ~yy_end_of_input_n();
    };

    class yy_end_of_guard_n : public syntax_node {
    private:
        int m_Rule;

    public:
        virtual dfa::position pos() const;
        virtual dfa::position final_pos() const;

    public:
        virtual ~yy_end_of_guard_n();
    };

    class parser_actions {
    public:
        typedef util::syntax_ptr<syntax_node> node;
        typedef lr::parser<node, parser_actions> parser;
        typedef parser::reduce_list reduce_list;

    private:
        dfa::lexeme_stream* m_Stream;
        bool m_OwnStream;

        parser_actions(parser_actions& noCopying);
        parser_actions& operator=(const parser_actions& noCopying);

    public:
        parser_actions(dfa::lexeme_stream* stream, bool ownStream = false)
        : m_Stream(stream)
        , m_OwnStream(ownStream) { }

        ~parser_actions() {
            if (m_OwnStream && m_Stream) {
                delete m_Stream;
                m_Stream = NULL;
            }
        }

        inline dfa::lexeme* read() {
            dfa::lexeme* result = NULL;
            (*m_Stream) >> result;
            return result;
        }

        node shift(const dfa::lexeme_container& lexeme);

        node reduce(int nonterminal, int rule, const reduce_list& reduce, const dfa::position& lookaheadPosition);
    };

public:
    typedef util::syntax_ptr<syntax_node> syntax_node_container;
    typedef lr::parser<syntax_node_container, parser_actions> ast_parser_type;
    static const ast_parser_type ast_parser;

public:
    typedef ast_parser_type::state state;
    inline static state* create_yy_Parser_Language(parser_actions* actions) {
        return ast_parser.create_parser(actions, 0);
    }

    inline static state* create_yy_Parser_Language(dfa::lexeme_stream* stream, bool deleteStream = false) {
        return ast_parser.create_parser(new parser_actions(stream, deleteStream), 0);
    }

    template<typename char_type, typename traits> inline static state* create_yy_Parser_Language(std::basic_istream<char_type, traits>& input) {
        return create_yy_Parser_Language(lexer.create_stream_from<char_type, traits>(input), true);
    }

    template<typename char_type, typename custom_stream_alike> inline static state* create_yy_Parser_Language(custom_stream_alike& input) {
        return create_yy_Parser_Language(lexer.create_stream_from<char_type, custom_stream_alike>(input), true);
    }

};
}

#endif
