#ifndef GEODIFF_CONFIG_HPP
#define GEODIFF_CONFIG_HPP

#define HAVE_POSTGRES

#endif // GEODIFF_CONFIG_HPP
