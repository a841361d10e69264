// stands for the sources of the XML library, whose interface is modelled
