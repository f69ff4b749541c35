import numpy as np
def c1(A): 
    out=np.empty_like(A); np.multiply(A,2,out=out); return out
def c2(A):
    B=np.zeros(A.shape); B+=A; B-=1; B*=A; B/=2; B**=2; return B
def c3(A):
    C=A.copy(); C.fill(3.0); return C
def c4(A):
    C=A.copy(); np.copyto(C,A); np.add(C,1,out=C); return C
def c5(w):
    D=np.zeros((3,3)); np.fill_diagonal(D,w); return D
def c6():
    D=np.zeros((3,3)); D[np.diag_indices(3)]+=1; return D
def c7():
    E=np.zeros(6); np.add.at(E,[0,0,1],1.0); return E
def c8():
    E=np.zeros(6); np.put(E,[5],9.);return E
