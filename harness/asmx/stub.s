// lets functions without bodies be declared here
