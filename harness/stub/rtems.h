// stands for the RTEMS header
