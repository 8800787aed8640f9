//! Only pulls in the dependencies.
