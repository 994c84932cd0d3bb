#ifndef ARABICA_ARABICA_CONFIG_HPP
#define ARABICA_ARABICA_CONFIG_HPP
#define ARABICA_HAVE_BOOST
#define ARABICA_USE_EXPAT
#define ARABICA_USE_LIBXML2
#define ARABICA_USE_XERCES
#endif
