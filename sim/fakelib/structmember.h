/* see Python.h */
