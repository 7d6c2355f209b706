pub struct Context {}
