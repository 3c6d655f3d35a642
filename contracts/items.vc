@file act/mod.rs
@item ComplexActFunc
@file init/mod.rs
@item InitMethod
@file input/mod.rs mode=gen
@item ReleaseError #[derive(Debug)]
@item IOType
@item IOShape #[derive(PartialEq, Eq, Structural)]
@file opt/mod.rs
@item ComplexLossFunc
@file err/mod.rs
@item LossCalcError #[derive(Debug)]
