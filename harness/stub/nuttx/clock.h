// stands for the NuttX header
