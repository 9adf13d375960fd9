// Stand-in for the SOFA headers (not installed here): only what the material headers name.  No behaviour is modelled except
// Data<T>, which holds the value it is given.
#pragma once
#define SOFA_EXPORT_DYNAMIC_LIBRARY
#define SOFA_IMPORT_DYNAMIC_LIBRARY
