"""Defaults of a contract module."""
TYPES_RAW=[]; SKIP_FIELDS=set(); OPTIONAL_FIELDS=set(); FIELD_TYPES={}; FIELD_OWNER={}; OWNER_ALLOC={}; GHOST=[]; OPAQUE=[]; RECORDS={}; ABSTRACT={}
CONSTS={}; ENUMS={}; ALLOC_WRITES={}; ALLOC_FACT={}; DELETE={}; PTR_CLASS=r'^(const )?(boost::)?intrusive_ptr<|^(const )?(std::)?(unique|shared)_ptr<|(^|::|\s)\w*_ptr$'
def construct(tr,t,k,ct): return None
def libmember(tr,e,cal,obj,name,args,arrow): return None
def libop(tr,e,name,args,want_lv): return None
def libcall(tr,e,name,args,want_lv): return None
def intercept(tr,e,f,name,args,obj): return None
