#include <string>
#include <vector>
#include <map>
#include <list>
#include <iostream>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/foreach.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/weak_ptr.hpp>
#include <boost/intrusive_ptr.hpp>
#include <boost/tokenizer.hpp>
#include <boost/utility.hpp>
#include <hdf5.h>
#include <OpenEXR/ImathVec.h>
#include <OpenEXR/ImathMatrix.h>
#include <OpenEXR/ImathMatrixAlgo.h>
#include <OpenEXR/ImathBox.h>
#include <OpenEXR/ImathPlane.h>
#include <OpenEXR/half.h>
#include <boost/scoped_ptr.hpp>
#include <boost/regex.hpp>
#include <set>
#include <functional>
#include <cmath>
#include <OpenEXR/ImathBoxAlgo.h>
