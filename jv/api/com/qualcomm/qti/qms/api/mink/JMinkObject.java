package com.qualcomm.qti.qms.api.mink;

import java.util.concurrent.atomic.AtomicInteger;

public abstract class JMinkObject implements IMinkObject {
    protected AtomicInteger mRefs = new AtomicInteger(1);

    @Override
    public void retain() {
        mRefs.incrementAndGet();
    }

    @Override
    public void release() {
        mRefs.decrementAndGet();
    }
}
