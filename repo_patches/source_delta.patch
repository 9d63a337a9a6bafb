From f0f17d55386894bec79f4da4614bdf5d48a736e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:23 +0000
Subject: [PATCH 01/26] fix: reconfigure() of linear source and of RF cavity
 must take over all members

---
 src/flame/rf_cavity.h | 12 ++++++++++++
 src/linear.cpp        |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 4728129..ec4af18 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -140,6 +140,18 @@ struct ElementRFCavity : public MomentElementBase
         base_t::assign(other);
         const self_t* O=static_cast<const self_t*>(other);
         // *all* member variables must be assigned here or reconfigure() will result in inconsistancy
+        CavType       = O->CavType;
+        DataPath      = O->DataPath;
+        DataFile      = O->DataFile;
+        SynAccTab     = O->SynAccTab;
+        have_RefNrm     = O->have_RefNrm;
+        have_SynComplex = O->have_SynComplex;
+        have_EkLim      = O->have_EkLim;
+        have_NrLim      = O->have_NrLim;
+        RefNrm        = O->RefNrm;
+        SynComplex    = O->SynComplex;
+        EkLim         = O->EkLim;
+        NrLim         = O->NrLim;
         lattice       = O->lattice;
         mlptable      = O->mlptable;
         CavData       = O->CavData;
diff --git a/src/linear.cpp b/src/linear.cpp
index 958595e..ac11c28 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -193,6 +193,13 @@ struct ElementSource : public Base
     virtual ~ElementSource() {}
 
     virtual const char* type_name() const {return "source";}
+
+    virtual void assign(const ElementVoid *other)
+    {
+        base_t::assign(other);
+        const ElementSource *O = static_cast<const ElementSource*>(other);
+        istate.assign(O->istate);
+    }
 };
 
 template<typename Base>
-- 
2.43.0


From f95a28773bd4535b01f644ac9a62517924987fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:47 +0000
Subject: [PATCH 02/26] fix: Config::flatten() must not modify a parameter map
 shared with other Configs

---
 src/config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.cpp b/src/config.cpp
index df2468f..a4604ff 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -116,6 +116,7 @@ void Config::push_scope()
 void Config::flatten()
 {
     if(implicit_values) {
+        _cow();
         values->insert(implicit_values->begin(),
                        implicit_values->end());
         implicit_values.reset();
-- 
2.43.0


From d4dcc1e009f58a33f08b0057cf830ba2a6d84ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:57 +0000
Subject: [PATCH 03/26] fix: guard the cavity and curve file caches against
 concurrent use by several Machines

---
 src/moment_sup.cpp | 7 +++++++
 src/rf_cavity.cpp  | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index 6f5387e..71fdb12 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -1,6 +1,7 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/thread/mutex.hpp>
 #include <boost/numeric/ublas/lu.hpp>
 
 #include "flame/constants.h"
@@ -17,6 +18,11 @@
 
 std::map<std::string,boost::shared_ptr<Config> > CurveMap;
 
+namespace {
+// guards CurveMap
+boost::mutex CurveMap_mutex;
+}
+
 // http://www.crystalclearsoftware.com/cgi-bin/boost_wiki/wiki.pl?LU_Matrix_Inversion
 // by LU-decomposition.
 void inverse(MomentElementBase::value_t& out, const MomentElementBase::value_t& in)
@@ -396,6 +402,7 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
         std::string CurveFile =  c.get<std::string>("Eng_Data_Dir", defpath);
         CurveFile += "/" + filename;
         std::string key(SB()<<CurveFile<<"|"<<boost::filesystem::last_write_time(CurveFile));
+        boost::mutex::scoped_lock G(CurveMap_mutex);
         if ( CurveMap.find(key) == CurveMap.end() ) {
             // not found in CurveMap
             try {
diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 327fd8d..b459748 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -3,6 +3,7 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/thread/mutex.hpp>
 
 #include "flame/constants.h"
 #include "flame/moment.h"
@@ -21,6 +22,11 @@
 
 std::map<std::string,boost::shared_ptr<Config> > ElementRFCavity::CavConfMap;
 
+namespace {
+// guards ElementRFCavity::CavConfMap
+boost::mutex CavConfMap_mutex;
+}
+
 // RF Cavity beam dynamics functions.
 
 static double ipow(double base, int exp)
@@ -806,6 +812,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
     {
         boost::shared_ptr<Config> conf;
         std::string key(SB()<<DataFile<<"|"<<boost::filesystem::last_write_time(DataFile));
+        boost::mutex::scoped_lock G(CavConfMap_mutex);
         if ( CavConfMap.find(key) == CavConfMap.end() ) {
             // not found in CavConfMap
             try {
@@ -824,6 +831,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
             // found in CavConfMap
             conf=CavConfMap[key];
         }
+        G.unlock();
 
         typedef Config::vector_t elements_t;
         elements_t Es(conf->get<elements_t>("elements"));
-- 
2.43.0


From e59d1a057bb0e678ae29b4191f27876e639083f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:53 +0000
Subject: [PATCH 04/26] fix: keep direction-dependent phase advance out of
 cached element results

MomentElementBase::advance() stored the entrance-to-exit change of phis as part of
the cached result, although the cache key does not include the direction.  A backward
pass that hit the cache of a forward pass (or vice versa) moved phis the wrong way.
---
 src/moment.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/moment.cpp b/src/moment.cpp
index 6a073e3..a1f49c7 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -673,16 +673,6 @@ void MomentElementBase::advance(StateBase& s)
 
         ST.recalc();
 
-        if(!ST.retreat){
-            ST.ref.phis += ST.ref.SampleIonK*length*MtoMM;
-            for(size_t k=0; k<last_real_in.size(); k++)
-                ST.real[k].phis += ST.real[k].SampleIonK*length*MtoMM;
-        } else {
-            ST.ref.phis -= ST.ref.SampleIonK*length*MtoMM;
-            for(size_t k=0; k<last_real_in.size(); k++)
-                ST.real[k].phis -= ST.real[k].SampleIonK*length*MtoMM;
-        }
-
         last_ref_out = ST.ref;
         last_real_out = ST.real;
     } else {
@@ -693,6 +683,17 @@ void MomentElementBase::advance(StateBase& s)
                   ST.real.begin());
     }
 
+    // depends on the direction, so not part of the cached result
+    if(!ST.retreat){
+        ST.ref.phis += ST.ref.SampleIonK*length*MtoMM;
+        for(size_t k=0; k<last_real_in.size(); k++)
+            ST.real[k].phis += ST.real[k].SampleIonK*length*MtoMM;
+    } else {
+        ST.ref.phis -= ST.ref.SampleIonK*length*MtoMM;
+        for(size_t k=0; k<last_real_in.size(); k++)
+            ST.real[k].phis -= ST.real[k].SampleIonK*length*MtoMM;
+    }
+
     if(!ST.retreat){
         // Forward propagation
         ST.pos += length;
-- 
2.43.0


From 82ed65817e881870e2ebf1b07669be6bc0146b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:08 +0000
Subject: [PATCH 05/26] fix: forget cached element results when recomputing
 them fails

The cache key was stored before recompute_matrix(), so after an exception the next
pass with the same input state took stale or uninitialised matrices for valid.
---
 src/flame/moment.h    |  4 ++++
 src/flame/rf_cavity.h | 31 ++++++++++++++++++-------------
 src/moment.cpp        | 20 ++++++++++++++++++--
 3 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/flame/moment.h b/src/flame/moment.h
index b4c1e91..d7a8695 100644
--- a/src/flame/moment.h
+++ b/src/flame/moment.h
@@ -170,6 +170,10 @@ struct MomentElementBase : public ElementVoid
     //! in the provided new input state.
     void resize_cache(const state_t& ST);
 
+    //! Forget the results of the last pass.
+    //! Called if they can't be completed.
+    void clear_cache();
+
     //! recalculate 'transfer' taking into consideration the provided input state
     virtual void recompute_matrix(state_t& ST);
 
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index ec4af18..9a6a18a 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -182,25 +182,30 @@ struct ElementRFCavity : public MomentElementBase
             resize_cache(ST);
             // need to re-calculate energy dependent terms
 
-            std::string newtype = conf().get<std::string>("cavtype");
-            if (CavType != newtype){
-                lattice.clear();
-                SynAccTab.clear();
-                LoadCavityFile(conf());
-            } else if (CavType == "Generic") {
-                std::string newfile = conf().get<std::string>("Eng_Data_Dir", defpath);
-                newfile += "/" + conf().get<std::string>("datafile");
-                if (DataFile != newfile) {
+            try {
+                std::string newtype = conf().get<std::string>("cavtype");
+                if (CavType != newtype){
                     lattice.clear();
                     SynAccTab.clear();
                     LoadCavityFile(conf());
+                } else if (CavType == "Generic") {
+                    std::string newfile = conf().get<std::string>("Eng_Data_Dir", defpath);
+                    newfile += "/" + conf().get<std::string>("datafile");
+                    if (DataFile != newfile) {
+                        lattice.clear();
+                        SynAccTab.clear();
+                        LoadCavityFile(conf());
+                    }
                 }
-            }
 
-            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+                recompute_matrix(ST); // updates transfer and last_Kenergy_out
 
-            for(size_t i=0; i<last_real_in.size(); i++)
-                get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
+                for(size_t i=0; i<last_real_in.size(); i++)
+                    get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
+            } catch(...) {
+                clear_cache(); // results are incomplete
+                throw;
+            }
 
             ST.recalc();
 
diff --git a/src/moment.cpp b/src/moment.cpp
index a1f49c7..926e2cb 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -669,7 +669,12 @@ void MomentElementBase::advance(StateBase& s)
         last_real_in = ST.real;
         resize_cache(ST);
 
-        recompute_matrix(ST); // updates transfer and last_Kenergy_out
+        try {
+            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+        } catch(...) {
+            clear_cache(); // results are incomplete
+            throw;
+        }
 
         ST.recalc();
 
@@ -758,6 +763,12 @@ void MomentElementBase::resize_cache(const state_t& ST)
     misalign_inv.resize(ST.real.size(), boost::numeric::ublas::identity_matrix<double>(state_t::maxsize));
 }
 
+void MomentElementBase::clear_cache()
+{
+    last_real_in.clear();
+    last_real_out.clear();
+}
+
 void MomentElementBase::recompute_matrix(state_t& ST)
 {
     // Default, initialize as no-op
@@ -952,7 +963,12 @@ struct ElementSBend : public MomentElementBase
             last_real_in = ST.real;
             resize_cache(ST);
 
-            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            try {
+                recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            } catch(...) {
+                clear_cache(); // results are incomplete
+                throw;
+            }
 
             ST.recalc();
             last_ref_out = ST.ref;
-- 
2.43.0


From 08139bff710f0accd1c16d21a7b8b8a80bfa0ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:19 +0000
Subject: [PATCH 06/26] fix: propagate backward through the linear elements

With a negative 'max' the Vector and TransferMatrix elements applied
the forward transfer matrix, added their length to the position, and
the source reset the state.  Apply the inverse and subtract the length
as the MomentMatrix elements do, and leave the state to the source.
---
 src/flame/linear.h | 17 +++++++++++++++--
 src/linear.cpp     |  3 ++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/flame/linear.h b/src/flame/linear.h
index cd33adf..61dd75f 100644
--- a/src/flame/linear.h
+++ b/src/flame/linear.h
@@ -2,17 +2,21 @@
 #define FLAME_LINEAR_H
 
 #include <ostream>
+#include <stdexcept>
 #include <math.h>
 
 #include <boost/numeric/ublas/vector.hpp>
 #include <boost/numeric/ublas/matrix.hpp>
 #include <boost/numeric/ublas/io.hpp>
+#include <boost/numeric/ublas/lu.hpp>
 
 #include "base.h"
 
 /** @brief An Element based on a simple Transfer matrix
  *
  * @f$ state = transfer * state @f$
+ *
+ * For backward propagation the inverse of transfer is applied.
  * @tparam one of VectorState or MatrixState
  */
 template<typename State>
@@ -53,8 +57,17 @@ private:
     void advanceT(State& s)
     {
         using boost::numeric::ublas::prod;
-        s.pos += length;
-        s.state = prod(transfer, s.state);
+        if(!s.retreat) {
+            s.pos += length;
+            s.state = prod(transfer, s.state);
+        } else {
+            value_t scratch(transfer); // copy
+            boost::numeric::ublas::permutation_matrix<size_t> pm(scratch.size1());
+            if(boost::numeric::ublas::lu_factorize(scratch, pm)!=0)
+                throw std::runtime_error("Failed to invert transfer matrix");
+            boost::numeric::ublas::lu_substitute(scratch, pm, s.state);
+            s.pos -= length;
+        }
     }
 };
 
diff --git a/src/linear.cpp b/src/linear.cpp
index ac11c28..9485521 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -178,7 +178,8 @@ struct ElementSource : public Base
     {
         state_t& ST = static_cast<state_t&>(s);
         // Replace state with our initial values
-        ST.assign(istate);
+        if(!ST.retreat)
+            ST.assign(istate);
     }
 
     virtual void show(std::ostream& strm, int level) const
-- 
2.43.0


From 59436482e726ff85e3caeb77f2b5e3296f938e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 07/26] fix: raise instead of crashing when Machine() gets bad
 arguments

PyGLPSParse2Config() returns NULL with a python exception set.
Also free the previous Machine when __init__() is called again.
---
 python/flame/modmachine.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index af91b72..bab3842 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -24,7 +24,13 @@ int PyMachine_init(PyObject *raw, PyObject *args, PyObject *kws)
 
         std::auto_ptr<Config> C(PyGLPSParse2Config(raw, args, kws));
 
-        machine->machine = new Machine(*C);
+        if(!C.get())
+            return -1; // python exception already set
+
+        Machine *newmachine = new Machine(*C);
+
+        std::auto_ptr<Machine> prev(machine->machine); // when __init__() is called again
+        machine->machine = newmachine;
 
         return 0;
     } CATCH3(key_error, KeyError, -1)
-- 
2.43.0


From b4e74925d5aec3e5572e9f3e715621c721181341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 08/26] fix: raise instead of crashing when a Machine is used
 without __init__()

Machine.__new__(Machine) (or a sub-class which does not call the base
__init__()) has no C++ Machine.
---
 python/flame/modmachine.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index bab3842..3622c58 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -16,6 +16,14 @@ struct PyMachine {
     Machine *machine;
 };
 
+//! a Machine whose __init__() has not succeeded
+static
+void check_init(const PyMachine *machine)
+{
+    if(!machine->machine)
+        throw std::runtime_error("Machine has not been initialized");
+}
+
 static
 int PyMachine_init(PyObject *raw, PyObject *args, PyObject *kws)
 {
@@ -56,6 +64,7 @@ static
 PyObject *PyMachine_str(PyObject *raw)
 {
     TRY {
+        check_init(machine);
         std::ostringstream strm;
         strm << *(machine->machine);
         return PyString_FromString(strm.str().c_str());
@@ -66,6 +75,8 @@ static
 PyObject *PyMachine_conf(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY {
+        check_init(machine);
+
         PyObject *pyindex = Py_None;
         const char *pnames[] = {"index", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|O", (char**)pnames, &pyindex))
@@ -93,6 +104,8 @@ static
 PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY {
+        check_init(machine);
+
         PyObject *d = Py_None, *W = Py_False;
         const char *pnames[] = {"config", "inherit", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|OO", (char**)pnames, &d, &W))
@@ -163,6 +176,8 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
 {
 
     TRY {
+        check_init(machine);
+
         PyObject *state, *toobserv = Py_None, *pymax = Py_None;
         unsigned long start = 0;
         int max = INT_MAX;
@@ -201,6 +216,8 @@ static
 PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY{
+        check_init(machine);
+
         unsigned long idx;
         PyObject *conf, *replace = Py_False;
         const char *pnames[] = {"index", "config", "replace", NULL};
@@ -228,6 +245,8 @@ static
 PyObject *PyMachine_find(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY{
+        check_init(machine);
+
         const char *ename = NULL, *etype = NULL;
         const char *pnames[] = {"name", "type", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|zz", (char**)pnames, &ename, &etype))
@@ -264,6 +283,7 @@ static
 Py_ssize_t PyMachine_len(PyObject *raw)
 {
     TRY{
+        check_init(machine);
         return machine->machine->size();
     }CATCH1(-1)
 }
-- 
2.43.0


From 7d58624cb2fb1dca385ad9cf9ed4298e86b9b49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 09/26] fix: don't crash on, or half apply, a refused State
 attribute assignment

'del state.attr' dereferenced NULL, and a value which could not be
converted was stored before the exception was raised.
---
 python/flame/modstate.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 5a071f2..42aaa39 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -139,6 +139,10 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
         PyObject *idx = PyDict_GetItem(state->attrs, attr);
         if(!idx)
             return PyObject_GenericSetAttr(raw, attr, val);
+        if(!val) {
+            PyErr_Format(PyExc_TypeError, "Can't delete attribute");
+            return -1;
+        }
         int i = PyInt_AsLong(idx);
 
         StateBase::ArrayInfo info;
@@ -153,27 +157,31 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
 
             switch(info.type) {
             case StateBase::ArrayInfo::Double: {
-                double *dest = (double*)info.ptr;
+                double newval = 0.0;
                 if(PyFloat_Check(val))
-                    *dest = PyFloat_AsDouble(val);
+                    newval = PyFloat_AsDouble(val);
                 else if(PyLong_Check(val))
-                    *dest = PyLong_AsDouble(val);
+                    newval = PyLong_AsDouble(val);
                 else if(PyInt_Check(val))
-                    *dest = PyInt_AsLong(val);
+                    newval = PyInt_AsLong(val);
                 else
                     PyErr_Format(PyExc_ValueError, "Can't assign to double field");
+                if(!PyErr_Occurred())
+                    *(double*)info.ptr = newval;
             }
                 break;
             case StateBase::ArrayInfo::Sizet: {
-                size_t *dest = (size_t*)info.ptr;
+                size_t newval = 0;
                 if(PyFloat_Check(val))
-                    *dest = PyFloat_AsDouble(val);
+                    newval = PyFloat_AsDouble(val);
                 else if(PyLong_Check(val))
-                    *dest = PyLong_AsUnsignedLongLong(val);
+                    newval = PyLong_AsUnsignedLongLong(val);
                 else if(PyInt_Check(val))
-                    *dest = PyInt_AsLong(val);
+                    newval = PyInt_AsLong(val);
                 else
                     PyErr_Format(PyExc_ValueError, "Can't assign to double field");
+                if(!PyErr_Occurred())
+                    *(size_t*)info.ptr = newval;
             }
                 break;
             default:
-- 
2.43.0


From e7657663113ed8402be4a4755b83898eb52f8a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 10/26] fix: notice python errors when converting arguments

Failed conversion of 'max', failed iteration, and objects without a
truth value were ignored, and ended as SystemError.
A 'max' which doesn't fit into an int was silently truncated.
---
 python/flame/modconfig.cpp  |  6 +++++-
 python/flame/modmachine.cpp | 22 +++++++++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index d1eed62..b0e642d 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -27,7 +27,11 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
     PyRef<> iter(PyObject_GetIter(list));
     while(true) {
         PyObject *item = PyIter_Next(iter.py());
-        if(!item) break;
+        if(!item) {
+            if(PyErr_Occurred())
+                throw std::runtime_error("failed to iterate list"); // python exception already set
+            break;
+        }
         PyRef<> itemref(item);
         const char *kname;
         PyObject *value;
diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 3622c58..d16f8e0 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -115,7 +115,10 @@ PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
         if(d==Py_None) {
             C = machine->machine->conf();
         } else if(PyDict_Check(d)) {
-            if(PyObject_IsTrue(W)) {
+            int inherit = PyObject_IsTrue(W);
+            if(inherit<0)
+                return NULL;
+            if(inherit) {
                 C = machine->machine->conf();
                 C.push_scope();
             }
@@ -185,7 +188,14 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
         if(!PyArg_ParseTupleAndKeywords(args, kws, "O|kOO", (char**)pnames, &state, &start, &pymax, &toobserv))
             return NULL;
 
-        if (pymax!=Py_None) max = (int) PyLong_AsLong(pymax);
+        if (pymax!=Py_None) {
+            long lmax = PyLong_AsLong(pymax);
+            if(PyErr_Occurred())
+                return NULL;
+            if(lmax>INT_MAX || lmax<-INT_MAX)
+                return PyErr_Format(PyExc_ValueError, "'max' is out of range");
+            max = (int) lmax;
+        }
 
         PyStoreObserver observer;
         PyScopedObserver observing(machine->machine);
@@ -200,6 +210,8 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
                 observing.observe(num, &observer);
 
             }
+            if(PyErr_Occurred())
+                throw std::runtime_error(""); // iteration failed
         }
 
         machine->machine->propagate(unwrapstate(state), start, max);
@@ -227,8 +239,12 @@ PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
         if(idx>=machine->machine->size())
             return PyErr_Format(PyExc_ValueError, "invalid element index %lu", idx);
 
+        int doreplace = PyObject_IsTrue(replace);
+        if(doreplace<0)
+            return NULL;
+
         Config newconf;
-        if(!PyObject_IsTrue(replace))
+        if(!doreplace)
             newconf = (*machine->machine)[idx]->conf();
 
         PyRef<> list(PyMapping_Items(conf));
-- 
2.43.0


From e2e6ca5e61a881e03a84149538641688bf2bde87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 11/26] fix: release references and the Config when parsing
 from python

---
 python/flame/modconfig.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index b0e642d..0ce263c 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -71,7 +71,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
                     elem.reset(PyMapping_Items(elem.py()));
                 }
                 if(!PyList_Check(elem.py())) {
-                    PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(elem.py());
+                    PyTypeObject *valuetype = Py_TYPE(elem.py()); // borrowed
                     throw std::invalid_argument(SB()<<"lists must contain only dict or list of tuples, not "<<valuetype->tp_name);
                 }
 
@@ -83,7 +83,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
             ret.set<Config::vector_t>(kname, output);
 
         } else {
-            PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(value);
+            PyTypeObject *valuetype = Py_TYPE(value); // borrowed
             throw std::invalid_argument(SB()<<"Must be a dict, not "<<valuetype->tp_name);
         }
     }
@@ -240,7 +240,9 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
         PyCString pyname;
 
         if(!path && PyObject_HasAttrString(conf, "name")) {
-            path = pyname.c_str(pydirname(PyObject_GetAttrString(conf, "name")));
+            PyRef<> fname(PyObject_GetAttrString(conf, "name"));
+            PyRef<> dname(pydirname(fname.py()));
+            path = pyname.c_str(dname.py());
         }
 
         PyRef<> pybytes(PyObject_CallMethod(conf, "read", ""));
@@ -280,6 +282,7 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
 PyObject* PyGLPSParse(PyObject *unused, PyObject *args, PyObject *kws)
 {
     try{
-        return conf2dict(PyGLPSParse2Config(unused, args, kws));
+        std::auto_ptr<Config> C(PyGLPSParse2Config(unused, args, kws));
+        return conf2dict(C.get());
     }CATCH()
 }
-- 
2.43.0


From 82984d03eb681ebfb90a2d67abfca149579007a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 12/26] fix: free a State exactly once when wrapping it for
 python fails

---
 python/flame/modmachine.cpp | 7 +++++--
 python/flame/modstate.cpp   | 6 ++++--
 python/flame/pyflame.h      | 2 +-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index d16f8e0..425d355 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -129,7 +129,8 @@ PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
         }
         std::auto_ptr<StateBase> state(machine->machine->allocState(C));
         PyObject *ret = wrapstate(state.get());
-        state.release();
+        if(ret)
+            state.release();
         return ret;
     } CATCH()
 }
@@ -148,7 +149,9 @@ struct PyStoreObserver : public Observer
         PyRef<> statecopy(wrapstate(tmpstate.get()));
         tmpstate.release();
 
-        PyTuple_SET_ITEM(tuple.py(), 0, PyInt_FromSize_t(elem->index));
+        PyRef<> index(PyInt_FromSize_t(elem->index));
+
+        PyTuple_SET_ITEM(tuple.py(), 0, index.release());
         PyTuple_SET_ITEM(tuple.py(), 1, statecopy.release());
         if(PyList_Append(list.py(), tuple.py()))
             throw std::runtime_error(""); // a py exception is active
diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 42aaa39..1d4db60 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -302,7 +302,8 @@ PyObject* PyState_clone(PyObject *raw, PyObject *unused)
         std::auto_ptr<StateBase> newstate(state->state->clone());
 
         PyObject *ret = wrapstate(newstate.get());
-        newstate.release();
+        if(ret)
+            newstate.release();
         return ret;
     } CATCH()
 }
@@ -352,7 +353,7 @@ PyObject* wrapstate(StateBase* b)
 
         PyRef<PyState> state(PyStateType.tp_alloc(&PyStateType, 0));
 
-        state->state = b;
+        state->state = NULL;
         state->attrs = state->weak = state->dict = 0;
 
         state->attrs = PyDict_New();
@@ -383,6 +384,7 @@ PyObject* wrapstate(StateBase* b)
 
         }
 
+        state->state = b;
         return state.releasePy();
     } CATCH()
 }
diff --git a/python/flame/pyflame.h b/python/flame/pyflame.h
index fa864ce..395d5bb 100644
--- a/python/flame/pyflame.h
+++ b/python/flame/pyflame.h
@@ -12,7 +12,7 @@ Config* list2conf(PyObject *dict);
 void List2Config(Config& ret, PyObject *dict, unsigned depth=0);
 PyObject* conf2dict(const Config *conf);
 
-PyObject* wrapstate(StateBase*); // takes ownership of argument from caller
+PyObject* wrapstate(StateBase*); // takes ownership of argument from caller, unless NULL is returned
 StateBase* unwrapstate(PyObject*); // ownership of returned pointer remains with argument
 
 PyObject* PyGLPSPrint(PyObject *, PyObject *args);
-- 
2.43.0


From 08ea1afdf08c10b3a001b9ed988f99efabd0de3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 13/26] fix: don't terminate when a python log handler raises

log() is called from ~LogRecord().  Also keep the last character of
the message.
---
 python/flame/modmain.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/python/flame/modmain.cpp b/python/flame/modmain.cpp
index 715cdaf..9c5fc62 100644
--- a/python/flame/modmain.cpp
+++ b/python/flame/modmain.cpp
@@ -23,13 +23,18 @@ struct PyLogger : public Machine::Logger
             std::string msg(r.strm.str());
             size_t pos = msg.find_last_not_of('\n');
             if(pos!=msg.npos)
-                msg = msg.substr(0, pos);
-
-            // name, level, function name, lineno, message, args, exc_info
-            PyRef<> rec(PyObject_CallMethod(logger.py(), "makeRecord", "sHsHsOO",
-                                            FLAME_LOGGER_NAME, r.level, r.fname, r.lnum,
-                                            msg.c_str(), Py_None, Py_None));
-            PyRef<> junk(PyObject_CallMethod(logger.py(), "handle", "O", rec.py()));
+                msg = msg.substr(0, pos+1);
+
+            // called from ~LogRecord(), so exceptions can't be passed on
+            try {
+                // name, level, function name, lineno, message, args, exc_info
+                PyRef<> rec(PyObject_CallMethod(logger.py(), "makeRecord", "sHsHsOO",
+                                                FLAME_LOGGER_NAME, r.level, r.fname, r.lnum,
+                                                msg.c_str(), Py_None, Py_None));
+                PyRef<> junk(PyObject_CallMethod(logger.py(), "handle", "O", rec.py()));
+            } catch(std::exception&) {
+                PyErr_WriteUnraisable(logger.py());
+            }
         }
     }
     static void noopdtor(Machine::Logger*) {}
-- 
2.43.0


From 0064a3f19b625d33fe5578c66f4c9a8a13780c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 14/26] fix: untrack a State from the garbage collector before
 taking it apart

---
 python/flame/modstate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 1d4db60..f5c1f86 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -50,6 +50,8 @@ static
 void PyState_free(PyObject *raw)
 {
     TRY {
+        PyObject_GC_UnTrack(raw);
+
         std::auto_ptr<StateBase> S(state->state);
         state->state = NULL;
 
-- 
2.43.0


From 1d2fb455032749fefeaae55c00f7f4ae65ec181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:02 +0000
Subject: [PATCH 15/26] fix: refuse to propagate a state of another simulation
 type instead of misreading it

---
 src/chg_stripper.cpp  | 2 +-
 src/flame/linear.h    | 2 +-
 src/flame/rf_cavity.h | 2 +-
 src/linear.cpp        | 2 +-
 src/moment.cpp        | 8 ++++----
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index 6c735ca..c67f32f 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -185,7 +185,7 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
 
 void ElementStripper::advance(StateBase &s)
 {
-    state_t& ST = static_cast<state_t&>(s);
+    state_t& ST = dynamic_cast<state_t&>(s);
 
     ST.recalc();
     ST.calc_rms(); // paranoia in case someone (python) has made moment0_env inconsistent
diff --git a/src/flame/linear.h b/src/flame/linear.h
index 61dd75f..3bad6e5 100644
--- a/src/flame/linear.h
+++ b/src/flame/linear.h
@@ -32,7 +32,7 @@ struct LinearElementBase : public ElementVoid
 
     virtual void advance(StateBase& s)
     {
-        State& ST = static_cast<State&>(s);
+        State& ST = dynamic_cast<State&>(s);
         advanceT(ST);
     }
 
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 9a6a18a..5609e68 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -168,7 +168,7 @@ struct ElementRFCavity : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         double x0[2], x2[2], s0[2];
diff --git a/src/linear.cpp b/src/linear.cpp
index 9485521..011d4d2 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -176,7 +176,7 @@ struct ElementSource : public Base
 
     virtual void advance(StateBase& s)
     {
-        state_t& ST = static_cast<state_t&>(s);
+        state_t& ST = dynamic_cast<state_t&>(s);
         // Replace state with our initial values
         if(!ST.retreat)
             ST.assign(istate);
diff --git a/src/moment.cpp b/src/moment.cpp
index 926e2cb..d6f8982 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -657,7 +657,7 @@ unsigned MomentElementBase::get_flag(const Config& c, const std::string& name, c
 
 void MomentElementBase::advance(StateBase& s)
 {
-    state_t&  ST = static_cast<state_t&>(s);
+    state_t&  ST = dynamic_cast<state_t&>(s);
     using namespace boost::numeric::ublas;
 
     // IonEk is Es + E_state; the latter is set by user.
@@ -790,7 +790,7 @@ struct ElementSource : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t& ST = static_cast<state_t&>(s);
+        state_t& ST = dynamic_cast<state_t&>(s);
         if (!ST.retreat)
             // Replace state with our initial values
             ST.assign(istate);
@@ -951,7 +951,7 @@ struct ElementSBend : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         // IonEk is Es + E_state; the latter is set by user.
@@ -1157,7 +1157,7 @@ struct ElementSext : public MomentElementBase
         const bool   thinlens = conf().get<double>("thinlens", 0.0) == 1.0,
                      dstkick = conf().get<double>("dstkick", 1.0) == 1.0;
 
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         ST.recalc();
-- 
2.43.0


From e3dd163f56bf7f44d68e5ebdfdb2b313b98dc572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:02 +0000
Subject: [PATCH 16/26] fix: destroy elements already built when constructing a
 Machine fails

---
 src/base.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index ef0a1f6..60b5e26 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -79,6 +79,18 @@ void ElementVoid::assign(const ElementVoid *other)
     *const_cast<size_t*>(&index) = other->index;
 }
 
+namespace {
+// Destroys those elements which have not been handed over to a Machine
+struct ElementsGuard {
+    std::vector<ElementVoid*>& elements;
+    ElementsGuard(std::vector<ElementVoid*>& e) :elements(e) {}
+    ~ElementsGuard() {
+        for(size_t i=0; i<elements.size(); i++)
+            delete elements[i];
+    }
+};
+}
+
 Machine::Machine(const Config& c)
     :p_elements()
     ,p_trace(NULL)
@@ -106,6 +118,7 @@ Machine::Machine(const Config& c)
     p_elements_t result;
     p_lookup_t result_l, result_t;
     result.reserve(Es.size());
+    ElementsGuard guard(result);
 
     size_t idx=0;
     for(elements_t::iterator it=Es.begin(), end=Es.end(); it!=end; ++it)
@@ -136,6 +149,8 @@ Machine::Machine(const Config& c)
             throw std::runtime_error(strm.str());
         }
 
+        result.push_back(E); // can't fail, space is reserved
+
         if(E->type_name()!=etype) {
             std::ostringstream strm;
             strm<<"Element type inconsistent "<<etype<<" "<<E->type_name();
@@ -144,7 +159,6 @@ Machine::Machine(const Config& c)
 
         *const_cast<size_t*>(&E->index) = idx++; // ugly
 
-        result.push_back(E);
         result_l.insert(std::make_pair(LookupKey(E->name, E->index), E));
         result_t.insert(std::make_pair(LookupKey(etype, E->index), E));
     }
-- 
2.43.0


From 2e1449db12b13335242a9bc24aaf581a1c56cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:02 +0000
Subject: [PATCH 17/26] fix: find an element under its new name after
 reconfigure

---
 src/base.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index 60b5e26..400d844 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -224,7 +224,15 @@ void Machine::reconfigure(size_t idx, const Config& c)
 
     element_builder_t *builder = eit->second;
 
-    builder->rebuild(p_elements[idx], c, idx);
+    ElementVoid *E = p_elements[idx];
+    const std::string prevname(E->name);
+
+    builder->rebuild(E, c, idx);
+
+    if(E->name!=prevname) {
+        p_lookup.insert(std::make_pair(LookupKey(E->name, idx), E));
+        p_lookup.erase(LookupKey(prevname, idx));
+    }
 }
 
 Machine::p_state_infos_t Machine::p_state_infos;
-- 
2.43.0


From fc14e9bb566550d69a9cf418a82f5ef89b3d09ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:44 +0000
Subject: [PATCH 18/26] fix: release a property's name the way it was allocated
 when a parse error discards it

---
 src/glps.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps.y b/src/glps.y
index cdd87c5..1e9c01e 100644
--- a/src/glps.y
+++ b/src/glps.y
@@ -56,7 +56,7 @@ void yyerror (yacc_arg arg, const char* msg)
 %printer { fprintf(yyoutput, "%p", $$); } line_list;
 
 %union { kv_t kv; }
-%destructor { free($$.key); $$.key = NULL;glps_expr_cleanup($$.value); } <kv>
+%destructor { glps_string_cleanup($$.key); $$.key = NULL;glps_expr_cleanup($$.value); } <kv>
 %type <kv> property
 
 %token COMMENT
-- 
2.43.0


From c972bb34e5d01e9b91a1e44b3a6afb5c7a3720ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:44 +0000
Subject: [PATCH 19/26] fix: a failing operation reports its own line and keeps
 an earlier error

---
 src/glps_ops.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index 105f387..b540588 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -84,7 +84,7 @@ int binary_div(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
 {
     double result = boost::get<double>(A[0]->value)/boost::get<double>(A[1]->value);
     if(!isfinite(result)) {
-        ctxt->last_error = "division results in non-finite value";
+        glps_error(ctxt->scanner, ctxt, "division results in non-finite value");
         return 1;
     }
     *R = result;
@@ -115,7 +115,7 @@ int binary_bl_mult(parse_context* ctxt, expr_value_t *R, const expr_t * const *A
     double factor = boost::get<double>(A[MULT]->value);
 
     if(factor<0.0 || factor>std::numeric_limits<unsigned>::max()) {
-        ctxt->last_error = "beamline scale by negative value or out of range value";
+        glps_error(ctxt->scanner, ctxt, "beamline scale by negative value or out of range value");
         return 1;
     }
     unsigned factori = (unsigned)factor;
@@ -160,7 +160,7 @@ int unary_file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
     if(!exists(ret)) {
         std::ostringstream strm;
         strm<<"\""<<ret<<"\" does not exist";
-        ctxt->last_error = strm.str();
+        glps_error(ctxt->scanner, ctxt, "%s", strm.str().c_str());
         return 1;
     }
 
@@ -197,7 +197,7 @@ int unary_h5file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
 
     std::ostringstream strm;
     strm<<"\""<<inp<<"\" does not exist";
-  ctxt->last_error = strm.str();
+    glps_error(ctxt->scanner, ctxt, "%s", strm.str().c_str());
   return 1;
 }
 #endif
-- 
2.43.0


From 55f569a89e20127aa3c4f1f4a033715fdacdbac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:44 +0000
Subject: [PATCH 20/26] fix: name the operation, not its address, in the error
 for a wrong argument type

---
 src/glps_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps_parser.cpp b/src/glps_parser.cpp
index 549352d..2410163 100644
--- a/src/glps_parser.cpp
+++ b/src/glps_parser.cpp
@@ -346,7 +346,7 @@ expr_t *glps_add_op(parse_context *ctxt, string_t *name, unsigned N, expr_t **ar
 
         if(!op) {
             std::ostringstream strm;
-            strm << "Operation '" << name <<"'(";
+            strm << "Operation '" << name->str <<"'(";
             for(unsigned i=0; i<N; i++) {
                 if(i>0)
                     strm<<", ";
-- 
2.43.0


From 54f71dc05655783c1bae80e6bdd6d0e231b74ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:44 +0000
Subject: [PATCH 21/26] fix: parse_file("-") reads standard input instead of
 looking for a file of that name

---
 src/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.cpp b/src/config.cpp
index a4604ff..a76d298 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -365,7 +365,7 @@ Config*
 GLPSParser::parse_file(const char *fname, const bool have_lattice)
 {
     boost::filesystem::path fpath;
-    if(fname) {
+    if(fname && strcmp(fname,"-")!=0) {
         fpath = boost::filesystem::canonical(fname).parent_path();
     } else {
         fpath = boost::filesystem::current_path();
-- 
2.43.0


From c48e73206c2911816ab00e0fa4db17d2a454bf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:33 +0000
Subject: [PATCH 22/26] fix: h5file() accepts a plain file name without a group

---
 src/glps_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index b540588..c35aef0 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -188,7 +188,7 @@ int unary_h5file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
         path fname(absolute(inp.substr(0, sep), ctxt->cwd));
 
         if(exists(fname)) {
-            *R = canonical(fname).native() + inp.substr(sep);
+            *R = canonical(fname).native() + (sep==inp.npos ? std::string() : inp.substr(sep));
             return 0;
         } else if(sep==inp.npos) {
             break;
-- 
2.43.0


From a57c6ce54db8c42afc32bf7f27fccad7e66faf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 23/26] fix: a comment on the last line needs no newline after
 it

---
 src/glps.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps.l b/src/glps.l
index 0eeb8e7..9e7d563 100644
--- a/src/glps.l
+++ b/src/glps.l
@@ -40,7 +40,7 @@
     return NUM;
 }
 
-#[^\n]*\n { yylineno++; /* ignore */ }
+#[^\n]* { /* ignore, the newline is counted below */ }
 
 [=:;()\[\],+*/-] { return yytext[0]; }
 
-- 
2.43.0


From 0242d58e7a18d4f0d632a2683469365e588e6849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:14 +0000
Subject: [PATCH 24/26] fix: charge stripper refuses parameter lists that are
 too short

---
 src/chg_stripper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index c67f32f..13c7e8b 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -87,6 +87,11 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
     Stripper_Para = conf.get<std::vector<double> >("Stripper_Para", p1_default);
     Stripper_E0Para = conf.get<std::vector<double> >("Stripper_E0Para", p2_default);
 
+    if(Stripper_Para.size()<3 || Stripper_E0Para.size()<3)
+        throw std::runtime_error("charge stripper requires 3 entries in Stripper_Para[] and Stripper_E0Para[]");
+    if(ChgState.empty())
+        throw std::runtime_error("charge stripper requires at least one entry in IonChargeStates[]");
+
     n = ChgState.size();
 
     if(chrgmdl=="off" )
-- 
2.43.0


From c73b284d1c4f8380bb29ccde034f32686e9a2c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:14 +0000
Subject: [PATCH 25/26] fix: use_range that ends before it starts is refused

---
 src/moment_sup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index 71fdb12..98aebfe 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -442,7 +442,7 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
             start = static_cast<unsigned>(range[0]);
             end   = static_cast<unsigned>(range[1]);
 
-            if (start > cv.size() or end > cv.size())
+            if (start > end or end > cv.size())
                 throw std::runtime_error(SB()<<"'use_range' is out of curve size.\n");
 
             std::vector<double> part(cv.begin()+start, cv.begin()+end);
-- 
2.43.0


From 7b01380dd05232a6223374855147a463714dc024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:14 +0000
Subject: [PATCH 26/26] fix: RF cavity data file with missing or short settings
 is refused

---
 src/rf_cavity.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index b459748..0f30af4 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -642,6 +642,8 @@ double GetCavPhase(const int cavi, const Particle& ref, const double IonFys, con
         Fyc = 5.428*pow(IonEk, -0.5008) + 1.6;
         break;
     case 0:
+        if (P.size()<3)
+            throw std::runtime_error("*** GetCavPhase: synchronous phase requires an AccGap in the RF cavity file");
         Fyc = P[0]*pow(IonEk,P[1])- P[2];
         break;
     default:
@@ -816,15 +818,10 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         if ( CavConfMap.find(key) == CavConfMap.end() ) {
             // not found in CavConfMap
             try {
-                try {
-                    GLPSParser P;
-                    conf.reset(P.parse_file(DataFile.c_str()));
-                }catch(std::exception& e){
-                    std::cerr<<"Parse error: "<<e.what()<<"\n";
-                }
-
+                GLPSParser P;
+                conf.reset(P.parse_file(DataFile.c_str()));
             }catch(std::exception& e){
-                std::cerr<<"Error: "<<e.what()<<"\n";
+                throw std::runtime_error(SB()<<"Parse error in RF cavity file '"<<DataFile<<"': "<<e.what());
             }
             CavConfMap.insert(std::make_pair(key, conf));
         } else {
@@ -851,6 +848,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 const double eV0(EC.get<double>("V0"));
                 params.E0 = eV0;
                 EC.tryGet<std::vector<double> >("attr", attrs);
+                if(attrs.size()<(etype=="AccGap" ? 23u : 20u))
+                    throw std::runtime_error(SB()<<"'attr' of '"<<etype<<"' is too short in RF cavity file.\n");
                 for(int i=0; i<10; i++)
                 {
                     params.Tfit.push_back(attrs[i]);
@@ -875,6 +874,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         std::vector<double> Ez;
         bool checker = conf->tryGet<std::vector<double> >("Ez", Ez);
         if (!checker) throw std::runtime_error(SB()<<"'Ez' is missing in RF cavity file.\n");
+        if (Ez.size()<4 || Ez.size()%2!=0)
+            throw std::runtime_error(SB()<<"'Ez' must hold at least two pairs in RF cavity file.\n");
         CavData.readvec(Ez,2);
         conf->tryGet<double>("Rm",cRm);
 
@@ -883,6 +884,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         have_SynComplex = conf->tryGet<std::vector<double> >("SyncFit", SynComplex);
         have_EkLim = conf->tryGet<std::vector<double> >("EnergyLimit", EkLim);
         have_NrLim = conf->tryGet<std::vector<double> >("NormLimit", NrLim);
+        if ((have_EkLim && EkLim.size()<2) || (have_NrLim && NrLim.size()<2))
+            throw std::runtime_error(SB()<<"'EnergyLimit' and 'NormLimit' must hold two values in RF cavity file.\n");
     }
 }
 
@@ -1352,7 +1355,7 @@ void ElementRFCavity::GetCavMatGeneric(Particle &real, const double EfieldScl, c
             kfdy = kfdx;
             if(logme) {
                 FLAME_LOG(FINE)<<" X EFocus1 kfdx="<<kfdx<<"\n"
-                         <<" Y "<<linetab.E0[n]<<" "<<EfieldScl<<" "<<beta
+                         <<" Y "<<P.E0<<" "<<EfieldScl<<" "<<beta
                          <<" "<<gamma<<" "<<IonFy<<" "<<cRm<<"\n Z "<<T<<" "<<S<<"\n";
             }
 
-- 
2.43.0

