// stand-in: only the declarations linalg/Geom.hpp needs to be parsed for analysis (bodies are unknown to the analysis)
#ifndef VP_WYKOBI
#define VP_WYKOBI
namespace wykobi {
  template< typename T > struct point2d { T c[2]; T & operator[]( unsigned i ) { return c[i]; } T const & operator[]( unsigned i ) const { return c[i]; } };
  template< typename T > struct point3d { T c[3]; T & operator[]( unsigned i ) { return c[i]; } T const & operator[]( unsigned i ) const { return c[i]; } };
  template< typename T, unsigned N > struct vp_pt;
  template< typename T > struct vp_pt<T,2> { typedef point2d<T> type; };
  template< typename T > struct vp_pt<T,3> { typedef point3d<T> type; };
  template< typename T, unsigned N > struct triangle { typename vp_pt<T,N>::type p[3]; typename vp_pt<T,N>::type & operator[]( unsigned i ) { return p[i]; } };
  template< typename T > point2d<T> closest_point_on_triangle_from_point( triangle<T,2> const &, T const &, T const & );
  template< typename T > point3d<T> closest_point_on_triangle_from_point( triangle<T,3> const &, point3d<T> const & );
  template< typename T > T distance( point3d<T> const &, point3d<T> const & );
  template< typename T > T robust_cartesian_angle( T const &, T const & );
}
#endif
