    "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
    "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
    "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
    "_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
    "free", "_ZdlPv", "_ZdlPvm", "_ZdaPv",
    "_ZNSt13basic_filebufIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode", // forwards the name to fopen
    "_ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei", // the same
    "_ZSt17current_exceptionv", "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", // the exception object itself
    "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv",
    "_ZNSt12__basic_fileIcE6xsgetnEPcl", // fills the buffer by calling read()
    "_ZNSt12__basic_fileIcE6xsputnEPKcl", // calls write()
    "_ZNSt8ios_baseC2Ev", // initialises its object
    "pthread_once", // its flag
    "_ZNSt10filesystem7__cxx114path5_ListC1Ev", // initialises its object
