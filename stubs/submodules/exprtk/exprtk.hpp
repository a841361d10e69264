// interface of the expression library the code uses: all of it unknown externals to the analyses
#ifndef VP_EXPRTK_HPP
#define VP_EXPRTK_HPP
#include <string>
#include <cstddef>
extern "C" { bool vp_exprtk_var( void*, char const*, void* ); bool vp_exprtk_vec( void*, char const*, void*, std::size_t ); bool vp_exprtk_consts( void* ); void vp_exprtk_reg( void*, void* ); double vp_exprtk_value( void const* ); bool vp_exprtk_compile( void*, char const*, void* ); }
namespace exprtk {
  template< typename T > struct symbol_table { int id; bool add_variable( std::string const &s, T &v ) { return vp_exprtk_var( this, s.c_str(), &v ); } bool add_vector( std::string const &s, T *v, std::size_t n ) { return vp_exprtk_vec( this, s.c_str(), v, n ); } bool add_constants() { return vp_exprtk_consts( this ); } };
  template< typename T > struct expression { int id; void register_symbol_table( symbol_table<T> &s ) { vp_exprtk_reg( this, &s ); } T value() const { return vp_exprtk_value( this ); } };
  namespace lexer { struct token { int type; std::string value; std::size_t position; }; }
  namespace parser_error { struct type { lexer::token token; int mode; std::string diagnostic; }; inline char const * to_str( int ) { return ""; } }
  template< typename T > struct parser { int id; bool compile( std::string const &s, expression<T> &e ) { return vp_exprtk_compile( this, s.c_str(), &e ); } std::size_t error_count() { return 1; } parser_error::type get_error( std::size_t ) { return parser_error::type(); } std::string error() { return ""; } };
}
#endif
