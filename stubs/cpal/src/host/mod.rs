pub(crate) mod sim;
