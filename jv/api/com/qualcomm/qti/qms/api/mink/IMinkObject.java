package com.qualcomm.qti.qms.api.mink;

/** Surface of the Mink runtime that generated code builds against. */
public interface IMinkObject {
    int ERROR_INVALID = 2;
    int ERROR_BADOBJ = -2;

    class InvokeException extends Exception {
        private static final long serialVersionUID = 1L;
        private final int mErrorCode;

        public InvokeException(int errorCode) {
            mErrorCode = errorCode;
        }

        public int getErrorCode() {
            return mErrorCode;
        }
    }

    void retain();

    void release();

    boolean isNull();

    void invoke(int methodID, byte[][] bi, int[] boSizes, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws InvokeException;
}
