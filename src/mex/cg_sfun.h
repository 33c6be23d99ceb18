/* included at the end of an S-function, as the real interface file is: exports its callbacks */
#define SFM_C3(a, b, c) a##b##c
#define SFM_C(a, b, c) SFM_C3(a, b, c)
void SFM_C(S_FUNCTION_NAME, _call_, SFVAR)(SimStruct *S, int what, int port, const DimsInfo_T *d) {
    switch (what) {
    case 0: mdlInitializeSizes(S); break;
    case 1: mdlInitializeSampleTimes(S); break;
#ifdef MDL_SET_INPUT_PORT_DIMENSION_INFO
    case 2: mdlSetInputPortDimensionInfo(S, port, d); break;
#else
    case 2: ssSetInputPortDimensionInfo(S, port, d); break;
#endif
#ifdef MDL_SET_OUTPUT_PORT_DIMENSION_INFO
    case 3: mdlSetOutputPortDimensionInfo(S, port, d); break;
#else
    case 3: ssSetOutputPortDimensionInfo(S, port, d); break;
#endif
#ifdef MDL_START
    case 4: mdlStart(S); break;
#endif
#ifdef MDL_INITIALIZE_CONDITIONS
    case 5: mdlInitializeConditions(S); break;
#endif
    case 6: mdlOutputs(S, 0); break;
#ifdef MDL_UPDATE
    case 7: mdlUpdate(S, 0); break;
#endif
    case 8: mdlTerminate(S); break;
    }
}
