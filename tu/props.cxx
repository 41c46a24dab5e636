// both PropertyTree sources in one translation unit (found through -I<repo>/include); contains no logic
#include "../src/PropertyTree.cxx"
#include "../src/PropertyTreeYAML.cxx"
